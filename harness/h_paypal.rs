//! import paypal-csv.
use super::imports::*;
use super::util::*;
use super::vf::*;

/// A row of the statement. `at` is an index into WHEN.
#[derive(Clone)]
pub struct Row { pub day: usize, pub h: u32, pub m: u32, pub s: u32, pub zone: B, pub name: B, pub kind: B, pub pending: bool, pub cur: B, pub amount: B, pub receipt: B, pub bal: B, pub on: Option<B>, pub clock: Option<B> }
const DAYS: [&[u8]; 3] = [b"28/03/2020", b"29/03/2020", b"31/12/2019"];
const YMD: [(i32, u32, u32); 3] = [(2020, 3, 28), (2020, 3, 29), (2019, 12, 31)];
/// The dates in UTC.
const DATES: [&[u8]; 3] = [b"2020-03-28", b"2020-03-29", b"2019-12-31"];
#[inline(never)]
pub fn two(n: u32) -> B { vec![b'0' + (n / 10) as u8, b'0' + (n % 10) as u8] }
impl Row {
    pub fn new() -> Row { Row { day: 0, h: 12, m: 30, s: 45, zone: b("GMT"), name: b("n"), kind: b("k"), pending: false, cur: b("GBP"), amount: b("-5.10"), receipt: b(""), bal: b("20.00"), on: None, clock: None } }
    pub fn fields(&self) -> Vec<(&'static [u8], B)> {
        vec![(b"Date", match &self.on { Some(d) => d.clone(), None => DAYS[self.day].to_vec() }), (b"Time", match &self.clock { Some(c) => c.clone(), None => cat(&[&two(self.h), b":", &two(self.m), b":", &two(self.s)]) }), (b"Time zone", self.zone.clone()), (b"Name", self.name.clone()), (b"Type", self.kind.clone()),
            (b"Status", if self.pending { b("Pending") } else { b("Completed") }), (b"Currency", self.cur.clone()), (b"Amount", self.amount.clone()), (b"Receipt ID", self.receipt.clone()), (b"Balance", self.bal.clone())]
    }
    /// The two postings it has to become, the `i`th of its transaction.
    pub fn want(&self, i: usize, ns: &[u8], legacy: bool) -> (P, P) {
        let own = normal(&self.amount);
        let st = if self.pending { b'!' } else { b'*' };
        let mut me = P { status: st, account: b("assets:unknown"), amount: cat(&[&self.cur, &own]), balance: cat(&[&self.cur, &normal(&self.bal)]), ..P::default() };
        let mut peer = P { status: st, account: peer_account(&own), amount: cat(&[&self.cur, &negative(&own)]), ..P::default() };
        let mut m = M::new();
        let (y, mo, d) = YMD[self.day];
        m.date(y, mo, d);
        m.time(self.h, self.m, self.s);
        m.str(&self.zone);
        if self.name.is_empty() { m.u8(0); } else { m.u8(1); m.str(&self.name); }
        m.str(&self.kind);
        m.amount(&own, &self.cur);
        m.amount(&normal(&self.bal), &self.cur);
        m.0.extend_from_slice(&(i as u64).to_be_bytes());
        me.c.tags = vec![b("import-self"), b("unknown-account"), cat(&[b"fp-ppcsv.1.", ns, b"-", &m.hash(b"self")])];
        peer.c.tags = vec![b("import-peer"), b("unknown-account")];
        if legacy { me.c.tags.push(cat(&[b"fp-", ns, b"-", &m.hash(b"self")])); peer.c.tags.push(cat(&[b"fp-", ns, b"-", &m.hash(b"peer")])); }
        if !self.receipt.is_empty() { me.c.kv.push((b("receipt_id"), self.receipt.clone())); }
        peer.c.kv.push((b("trn_type"), self.kind.clone()));
        if !self.name.is_empty() { peer.c.kv.push((b("trn_name"), self.name.clone())); }
        (me, peer)
    }
}
/// The number without zeros that do not count.
pub fn normal(s: &[u8]) -> B {
    let n = num(s).unwrap();
    let (mut i, mut j) = (0, n.frac.len());
    while i + 1 < n.int.len() && split(n.int[i] == b'0') { i += 1; }
    while j > 0 && split(n.frac[j - 1] == b'0') { j -= 1; }
    let zero = j == 0 && split(n.int[i] == b'0');
    let mut v = Vec::new();
    if n.neg && !zero { v.push(b'-'); }
    v.extend_from_slice(&n.int[i..]);
    if j > 0 { v.push(b'.'); v.extend_from_slice(&n.frac[..j]); }
    v
}
/// The statement; `order` 1: columns in another order, and one more.
pub fn statement(rows: &[Row], order: u8) -> B {
    let mut v = Vec::new();
    let line = |v: &mut B, f: Vec<B>| {
        let mut f = f;
        if order == 1 { f.reverse(); f.push(b("x")); }
        for (k, x) in f.iter().enumerate() { if k > 0 { v.push(b','); } v.push(b'"'); for c in x { if split(*c == b'"') { v.push(b'"'); } v.push(*c); } v.push(b'"'); }
        v.push(b'\n');
    };
    line(&mut v, Row::new().fields().iter().map(|f| f.0.to_vec()).collect());
    for r in rows { line(&mut v, r.fields().into_iter().map(|f| f.1).collect()); }
    v
}
pub const ZONES: &[u8] = b"abbreviation,utc_offset\nGMT,UTC+00\nBST,UTC+01\nNST,UTC-03:30\n";
pub fn warm() {
    reset();
    write("tz", ZONES);
    stdin(&statement(&[Row::new()], 0));
    check("warm", run(&["import", "paypal-csv", "-", "tz", "--output-timezone", "UTC"]) == 0);
    reset();
    write("tz", ZONES);
}
pub fn import(rows: &[Row], order: u8, extra: &[&str]) -> i32 {
    write("in", &statement(rows, order));
    write("out", b"before");
    let mut args = vec!["import", "-o", "out", "paypal-csv", "in", "tz"];
    if !extra.contains(&"--output-timezone") { args.extend(["--output-timezone", "UTC"]); }
    args.extend(extra);
    run(&args)
}
pub fn output() -> Vec<T> {
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    got.unwrap()
}
pub fn refused(r: i32) {
    check("refused", r == 1);
    check("a refused statement leaves the output as it was", eq(&read("out").unwrap(), b"before"));
}
fn money(label: &str) -> B {
    let d = bytes(label, 3, Dom::of(b"0159"));
    let s: &[u8] = if flag(&format!("{label} sign")) { b"-" } else { b"" };
    match choose(&format!("{label} form"), 4) {
        0 => cat(&[s, &d[..1], b".", &d[1..]]),
        1 => cat(&[s, &d]),
        2 => cat(&[s, &d[..2], b".", &d[2..]]),
        _ => cat(&[s, &d, b".00"]),
    }
}
/// One row, every field symbolic.
pub fn h_pp_row() {
    warm();
    let mut r = Row::new();
    let low = Dom::range(b'a', b'z').or(DIGIT).or(Dom::of(b".&/"));
    r.name = cat(&[b"N", &bytes("name", 2, low)]);
    r.kind = cat(&[b"T", &bytes("type", 2, low)]);
    if flag("receipt") { r.receipt = bytes("receipt", 2, DIGIT); }
    r.pending = flag("pending");
    cover(if r.pending { "pending" } else { "completed" });
    r.cur = bytes("currency", 3, Dom::range(b'A', b'Z'));
    r.amount = money("amount");
    check("accepted", import(std::slice::from_ref(&r), choose("columns", 2), &[]) == 0);
    let (x, y) = r.want(0, b"paypal", false);
    compare_amounts("import", &output(), &[T::new(DATES[0], &r.name, vec![x, y])]);
    check("no other file is written", file_count() == 3);
}
pub fn h_pp_balance() {
    warm();
    let mut r = Row::new();
    r.day = choose("day", 3) as usize;
    r.bal = money("balance");
    r.s = choose("second", 3) as u32 * 29;
    let legacy = flag("legacy");
    let mut extra = vec!["--fingerprint-namespace", "ns"];
    if legacy { extra.push("--include-legacy-fingerprint"); }
    check("accepted", import(std::slice::from_ref(&r), 0, &extra) == 0);
    let (x, y) = r.want(0, b"ns", legacy);
    let got = output();
    compare_amounts("import", &got, &[T::new(DATES[r.day], &r.name, vec![x, y])]);
    distinct(&got);
}
/// The transactions rows become: runs of the same moment.
pub fn grouped(rows: &[Row], ns: &[u8]) -> Option<Vec<T>> { grouped_as(rows, ns, false) }
pub fn grouped_as(rows: &[Row], ns: &[u8], legacy: bool) -> Option<Vec<T>> {
    let off = |z: &[u8]| if z[0] == b'B' { 3600i64 } else { 0 };
    let moment = |r: &Row| r.day as i64 * 86400 + (r.h * 3600 + r.m * 60 + r.s) as i64 - off(&r.zone);
    let mut v: Vec<T> = Vec::new();
    let mut k = 0;
    while k < rows.len() {
        let mut e = k;
        while e < rows.len() && moment(&rows[e]) == moment(&rows[k]) { e += 1; }
        let name = rows[k..e].iter().find(|r| !r.name.is_empty())?.name.clone();
        let mut t = T::new(DATES[rows[k].day], &name, vec![]);
        for (i, r) in rows[k..e].iter().enumerate() { let (x, y) = r.want(i, ns, legacy); t.posts.push(x); t.posts.push(y); }
        v.push(t);
        k = e;
    }
    Some(v)
}
/// Rows of the same and of different moments, with and without names.
fn groups(n: usize) {
    warm();
    let rows: Vec<Row> = (0..n).map(|k| {
        let mut r = Row::new();
        // the first two are the same moment, in two time zones
        match choose(&format!("when {k}"), 4) { 0 => { r.h = 12 } 1 => { r.h = 13; r.zone = b("BST"); } 2 => { r.h = 13 } _ => { r.s = 46 } }
        r.name = match choose(&format!("name {k}"), 3) { 0 => b(""), 1 => b("A"), _ => b("B") };
        r.kind = cat(&[b"k", format!("{}", k).as_bytes()]);
        r
    }).collect();
    let r = import(&rows, 0, &[]);
    match grouped(&rows, b"paypal") {
        None => { cover("nobody has a name"); refused(r); }
        Some(w) => { if w.len() < n { cover("several rows in a transaction"); } check("accepted", r == 0); compare_amounts("import", &output(), &w); }
    }
}
pub fn h_pp_groups() { groups(2) }
pub fn h_pp_groups_deep() { groups(3) }
/// Within a transaction, no two postings share a fingerprint; what differs gets a different one.
pub fn h_pp_distinct() {
    warm();
    let rows: Vec<Row> = (0..2).map(|k| {
        let mut r = Row::new();
        r.amount = cat(&[&bytes(&format!("amount {k}"), 1, Dom::range(b'1', b'9')), b".00"]);
        r.bal = cat(&[&bytes(&format!("balance {k}"), 1, Dom::range(b'1', b'9')), b".00"]);
        r.kind = bytes(&format!("type {k}"), 1, Dom::range(b'a', b'b'));
        r.name = bytes(&format!("name {k}"), 1, Dom::range(b'a', b'b'));
        r
    }).collect();
    check("accepted", import(&rows, 0, &["--include-legacy-fingerprint"]) == 0);
    let got = output();
    check("one transaction", got.len() == 1 && got[0].posts.len() == 4);
    // the two tags of a posting have the same hash, and never that of another
    distinct(&got);
    // each alone has the fingerprint it has as the first row
    check("accepted", import(&rows[..1], 0, &["--include-legacy-fingerprint"]) == 0);
    let alone = output();
    for k in 0..2 { check("a later row does not change the fingerprints of a row", same_set(&alone[0].posts[k].c.fps(), &got[0].posts[k].c.fps())); }
}
/// What an amount text says: sign, digits, exponent of ten. None: not a number.
fn says(t: &[u8]) -> Option<(N, i32)> {
    let mut s = t;
    let mut neg = false;
    if !s.is_empty() && split((s[0] == b'-') | (s[0] == b'+')) { neg = split(s[0] == b'-'); s = &s[1..]; }
    let mut k = 0;
    while k < s.len() && !split(s[k] == b'e') { k += 1; }
    let mut exp = 0i32;
    if k < s.len() {
        let mut e = &s[k + 1..];
        let mut eneg = false;
        if !e.is_empty() && split(e[0] == b'-') { eneg = true; e = &e[1..]; }
        if !e.is_empty() && split(e[0] == b'+') { e = &e[1..]; } // `-+` is odd, and taken for `-`
        if e.is_empty() { return None; }
        for c in e { if !split(c.is_ascii_digit()) { return None; } let mut d = 0; while d < 9 && !split(*c == b'0' + d) { d += 1; } exp = exp * 10 + d as i32; }
        if eneg { exp = -exp; }
    }
    let s = &s[..k];
    let mut p = 0;
    while p < s.len() && !split(s[p] == b'.') { p += 1; }
    let int = s[..p].to_vec();
    let frac = if p < s.len() { s[p + 1..].to_vec() } else { Vec::new() };
    let mut ok = !(int.is_empty() && frac.is_empty());
    for c in int.iter().chain(&frac) { ok &= c.is_ascii_digit(); }
    if !split(ok) { return None; }
    Some((N { neg, int, frac }, exp))
}
/// Moves the point.
fn shift(n: N, e: i32) -> N {
    let (mut i, mut f) = (n.int, n.frac);
    if e > 0 { for _ in 0..e { if f.is_empty() { i.push(b'0'); } else { i.push(f.remove(0)); } } }
    if e < 0 { for _ in 0..-e { if i.is_empty() { f.insert(0, b'0'); } else { let c = i.pop().unwrap(); f.insert(0, c); } } }
    if i.is_empty() { i.push(b'0'); }
    N { neg: n.neg, int: i, frac: f }
}
fn amount_text(t: &[u8], must: bool) {
    let mut row = Row::new();
    let place = flag("balance");
    if place { row.bal = t.to_vec(); } else { row.amount = t.to_vec(); }
    let r = import(std::slice::from_ref(&row), 0, &[]);
    check("read or refused", r == 0 || r == 1);
    if r == 1 { cover("refused"); refused(r); }
    let mut plain = must;
    for c in t { plain &= c.is_ascii_digit() | (*c == b'.') | (*c == b'-'); }
    // numbers in the form PayPal gives them
    let form = plain && { let n = num(t); match n { Some(n) => n.frac.len() > 0 || !t.contains(&b'.'), None => false } };
    if form { check("a plain number is accepted", r == 0); }
    if r == 0 {
        let said = says(t);
        check("what is accepted is a number", said.is_some());
        let (n, e) = said.unwrap();
        let want = shift(n, e);
        cover("accepted");
        let got = output();
        let (me, peer) = (&got[0].posts[0], &got[0].posts[1]);
        if place { check("the balance", starts(&me.balance, b"GBP") && num(&me.balance[3..]).map_or(false, |g| g.same(&want))); return; }
        check("the amount", starts(&me.amount, b"GBP") && num(&me.amount[3..]).map_or(false, |g| g.same(&want)));
        let other = N { neg: !want.neg, int: want.int, frac: want.frac };
        check("the opposite amount", starts(&peer.amount, b"GBP") && num(&peer.amount[3..]).map_or(false, |g| g.same(&other)));
    }
}
/// Short texts of any form.
pub fn h_pp_amount() {
    warm();
    let t = bytes("amount", 4, Dom::of(b"-.,015 e+x"));
    let t = field_ascii(&t);
    amount_text(&t, true);
}
pub fn h_pp_amount_deep() {
    warm();
    let t = field_ascii(&bytes("amount", 5, Dom::of(b"-.,05 e+")));
    amount_text(&t, true);
}
fn field_ascii(t: &[u8]) -> B {
    let (mut i, mut j) = (0, t.len());
    while i < j && split(t[i] == b' ') { i += 1; }
    while i < j && split(t[j - 1] == b' ') { j -= 1; }
    t[i..j].to_vec()
}
/// Long numbers: exact or refused.
pub fn h_pp_digits() {
    warm();
    let n = [1usize, 8, 15, 16, 17, 18, 19, 20, 27, 28, 29, 30][choose("digits", 12) as usize];
    let f = [0usize, 1, 2, 3, 10, 26, 27, 28, 29][choose("decimals", 9) as usize];
    let mut t = b("");
    if flag("sign") { t.push(b'-'); }
    t.extend_from_slice(&bytes("first", 1, Dom::of(b"179")));
    for k in 1..n { t.push(b'0' + (k * 7 % 10) as u8); }
    if f > 0 { t.push(b'.'); for k in 1..f { t.push(b'0' + (k * 3 % 10) as u8); } t.extend_from_slice(&bytes("last", 1, Dom::of(b"0159"))); }
    match choose("exponent", 4) { 0 => {} 1 => t.extend_from_slice(b"e0"), 2 => t.extend_from_slice(b"e2"), _ => t.extend_from_slice(b"e-2") }
    amount_text(&t, n + f <= 28);
}
/// Rows that are not of the documented form are refused.
pub fn h_pp_refused() {
    warm();
    let r = Row::new();
    let mut f = r.fields();
    let what = choose("what", 7);
    let mut drop = None;
    match what {
        0 => f[0].1 = [&b"28/13/2020"[..], b"30/02/2020", b"29/02/2019", b"00/01/2020", b"2020-03-28", b"", b"28/03/20x0", b"28/03"][choose("date", 8) as usize].to_vec(),
        1 => f[1].1 = [&b"24:00:00"[..], b"12:60:00", b"12:00:61", b"12:00", b"", b"1200:00", b"12:00:0x"][choose("time", 7) as usize].to_vec(),
        2 => f[2].1 = cat(&[b"G", &bytes("zone", 2, Dom::range(b'A', b'Z'))]),
        3 => { f[5].1 = cat(&[b"Complete", &bytes("status", 1, Dom::range(b'a', b'z'))]); }
        4 => drop = Some(choose("column", 10) as usize),
        5 => { f[3].1 = b(""); }
        _ => f[choose("amount or balance", 2) as usize * 2 + 7].1 = b(""),
    }
    if what == 2 { assume(!eq(&f[2].1, b"GMT")); }
    if what == 3 { assume(f[5].1[8] != b'd'); }
    // a column that only the header lacks, or the row, or both
    let lack = if drop.is_some() { choose("lacks", 3) } else { 3 };
    // an absent name or receipt column reads as empty
    let optional = drop == Some(8) && lack == 2;
    let line = |v: &mut B, f: &[B]| { for (k, x) in f.iter().enumerate() { if k > 0 { v.push(b','); } v.extend_from_slice(x); } v.push(b'\n'); };
    let mut v = Vec::new();
    let keep = |k: usize, who: u8| !(drop == Some(k) && (lack == who || lack == 2));
    line(&mut v, &f.iter().enumerate().filter(|(k, _)| keep(*k, 0)).map(|(_, f)| f.0.to_vec()).collect::<Vec<B>>());
    line(&mut v, &f.iter().enumerate().filter(|(k, _)| keep(*k, 1)).map(|(_, f)| f.1.clone()).collect::<Vec<B>>());
    write("in", &v);
    write("out", b"before");
    let r = run(&["import", "-o", "out", "paypal-csv", "in", "tz", "--output-timezone", "UTC"]);
    if optional { check("a statement without receipts is accepted", r == 0); return; }
    cover("refused");
    refused(r);
    check("no other file is written", file_count() == 3);
}

fn off(neg: bool, h: i32, m: i32) -> i32 { let v = h * 3600 + m * 60; if neg { -v } else { v } }
fn days(y: i32, m: i32, d: i32) -> i32 { let y = if m <= 2 { y - 1 } else { y }; let e = y.div_euclid(400); let yoe = y - e * 400; let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1; e * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 }
/// The number of days before or after `day` that `secs` of that day are.
fn date_of(base: [i32; 3], secs: i32) -> B {
    let n = days(base[0], base[1], base[2]) + secs.div_euclid(86400);
    for dy in -2..=2 {
        // the candidates are enumerated, with the calendar of the standard
        let k = days(base[0], base[1], base[2]) + dy;
        if k == n {
            let (mut y, mut m, mut d) = (base[0], base[1], base[2] + dy);
            let len = |y: i32, m: i32| match m { 2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
            if d < 1 { m -= 1; if m < 1 { m = 12; y -= 1; } d += len(y, m); }
            else if d > len(y, m) { d -= len(y, m); m += 1; if m > 12 { m = 1; y += 1; } }
            return format!("{y:04}-{m:02}-{d:02}").into_bytes();
        }
    }
    unreachable!()
}
/// A time of day; its text and the hours and minutes.
fn clock() -> (B, i32, i32) {
    let t = cat(&[&bytes("h1", 1, Dom::range(b'0', b'2')), &bytes("h2", 1, DIGIT), b":", &bytes("m1", 1, Dom::range(b'0', b'5')), &bytes("m2", 1, DIGIT), b":00"]);
    let d = |k: usize| (t[k] - b'0') as i32;
    let (h, m) = (d(0) * 10 + d(1), d(3) * 10 + d(4));
    assume(h < 24);
    (t, h, m)
}
/// One row at `time` in the zone given by `table`; the date of its transaction, None: refused.
pub fn date_in(table: &[u8], zone: &[u8], day: &[u8], time: &[u8], out: &str) -> Option<B> {
    let mut r = Row::new();
    r.zone = zone.to_vec();
    r.clock = Some(time.to_vec());
    r.on = Some(day.to_vec());
    write("in", &statement(std::slice::from_ref(&r), 0));
    write("tz", table);
    write("out", b"before");
    let c = run(&["import", "-o", "out", "paypal-csv", "in", "tz", "--output-timezone", out]);
    check("accepted or refused", c == 0 || c == 1);
    if c == 1 { refused(c); return None; }
    let got = output();
    check("one transaction", got.len() == 1 && got[0].posts.len() == 2);
    Some(got[0].date.clone())
}
/// Every offset, at every minute of the day.
pub fn h_tz_offset() {
    warm();
    let o = bytes("offset", 4, DIGIT);
    let neg = flag("west");
    let short = flag("hours only");
    let s: &[u8] = if neg { b"-" } else { b"+" };
    let text = if short { cat(&[b"UTC", s, &o[..2]]) } else { cat(&[b"UTC", s, &o[..2], b":", &o[2..]]) };
    let n = |k: usize| (o[k] - b'0') as i32;
    let (oh, om) = (n(0) * 10 + n(1), if short { 0 } else { n(2) * 10 + n(3) });
    // the time of the row: around the offset, so that a wrong one gives another date
    let near = choose("minutes from midnight", 3) as i32 - 1;
    let (time, h, m) = clock();
    assume((oh >= 24) | (om >= 60) | (h * 60 + m == near + if neg { 1440 - oh * 60 - om } else { oh * 60 + om }));
    let got = date_in(&cat(&[b"abbreviation,utc_offset\nAAA,", &text, b"\n"]), b"AAA", b"28/03/2020", &time, "UTC");
    let good = split((oh < 24) & (om < 60));
    check("an offset of hours and minutes is accepted, and nothing else", got.is_some() == good);
    if !good { cover("refused"); return; }
    let at = h * 3600 + m * 60 - off(neg, oh, om);
    let day: &[u8] = if split(at < 0) { b"2020-03-27" } else if split(at >= 86400) { b"2020-03-29" } else { b"2020-03-28" };
    cover("accepted");
    check("the offset is its sign times hours and minutes", eq(&got.unwrap(), day));
}
/// Texts that are not offsets.
pub fn h_tz_text() {
    warm();
    let mut t = [&b"UTC+05:30"[..], b"UTC-11", b"UTC+1:00", b"UTC", b"", b"UTC+05:300", b"+05:30", b"utc+05:30", b"UTC+005"][choose("form", 9) as usize].to_vec();
    let (i, j) = (choose("first", 10) as usize, choose("second", 10) as usize);
    if i >= t.len() || j >= t.len() || i > j { if i + j > 0 { return; } } else {
        t[i] = byte("first character", PRINT.minus(b",\""));
        if j > i { t[j] = byte("second character", PRINT.minus(b",\"")); }
    }
    let mut ok = t.len() == 6 || t.len() == 9;
    if ok {
        ok &= (t[0] == b'U') & (t[1] == b'T') & (t[2] == b'C') & ((t[3] == b'+') | (t[3] == b'-')) & t[4].is_ascii_digit() & t[5].is_ascii_digit();
        if t.len() == 9 { ok &= (t[6] == b':') & t[7].is_ascii_digit() & t[8].is_ascii_digit(); }
    }
    let ok = split(ok);
    let d = |k: usize| (t[k].wrapping_sub(b'0')) as i32;
    let (oh, om) = if ok { (d(4) * 10 + d(5), if t.len() == 9 { d(7) * 10 + d(8) } else { 0 }) } else { (0, 0) };
    let good = ok && split((oh < 24) & (om < 60));
    let got = date_in(&cat(&[b"abbreviation,utc_offset\nAAA,", &t, b"\n"]), b"AAA", b"28/03/2020", b"12:00:00", "UTC");
    check("an offset of the documented form is accepted, and nothing else", got.is_some() == good);
    if good {
        cover("accepted");
        let at = 12 * 3600 - off(split(t[3] == b'-'), oh, om);
        let day: &[u8] = if split(at < 0) { b"2020-03-27" } else if split(at >= 86400) { b"2020-03-29" } else { b"2020-03-28" };
        check("the offset", eq(&got.unwrap(), day));
    } else { cover("refused"); }
}
/// Tables of two zones.
pub fn h_tz_table() {
    warm();
    let ab = Dom::of(b"ABab");
    let (z1, z2, z) = (bytes("zone 1", 2, ab), bytes("zone 2", 2, ab), bytes("zone", 2, ab));
    let offs: [&[u8]; 3] = [b"UTC-13", b"UTC+00", b"UTC+13"];
    let days: [&[u8]; 3] = [b"2020-03-29", b"2020-03-28", b"2020-03-27"];
    let (o1, o2) = (choose("offset 1", 3) as usize, choose("offset 2", 3) as usize);
    // the columns in either order
    let swap = flag("columns swapped");
    let row = |a: &[u8], o: &[u8]| if swap { cat(&[o, b",", a, b"\n"]) } else { cat(&[a, b",", o, b"\n"]) };
    let table = cat(&[&row(b"abbreviation", b"utc_offset"), &row(&z1, offs[o1]), &row(&z2, offs[o2])]);
    let got = date_in(&table, &z, b"28/03/2020", b"12:00:00", "UTC");
    let want = if split(eq(&z1, &z2)) { cover("a zone twice"); None } else if split(eq(&z, &z1)) { cover("found"); Some(days[o1]) } else if split(eq(&z, &z2)) { cover("found"); Some(days[o2]) } else { cover("unknown"); None };
    match want { None => check("a zone that is unknown or given twice is an error", got.is_none()), Some(d) => { check("a known zone is accepted", got.is_some()); check("a zone has the offset its row gives it", eq(&got.unwrap(), d)); } }
}
/// Tables that are not of the documented form.
pub fn h_tz_bad() {
    warm();
    let t: &[u8] = match choose("table", 6) {
        0 => b"abbreviation\nAAA\n", 1 => b"utc_offset\nUTC+01\n", 2 => b"", 3 => b"abbreviation,utc_offset\n", 4 => b"abbreviation,utc_offset\nAAA\n", _ => b"abbreviation,utc_offset\nAAA,UTC+01,x\n",
    };
    check("refused", date_in(t, b"AAA", b"28/03/2020", b"12:00:00", "UTC").is_none());
    // an offset that is wrong, in a row that is not used
    let x = byte("character", PRINT.minus(b",\"0123456789"));
    check("refused", date_in(&cat(&[b"abbreviation,utc_offset\nAAA,UTC+01\nBBB,UTC+0", &[x], b"\n"]), b"AAA", b"28/03/2020", b"12:00:00", "UTC").is_none());
}
/// The date is the one in the output time zone, also around the days the clocks change.
pub fn h_pp_local() { local(false) }
pub fn h_pp_local_deep() { local(true) }
fn local(deep: bool) {
    warm();
    // a zone, its offset in the two halves of the year, when the year's clocks change (in UTC)
    let zones: [(&str, i32, i32, i32, i32); 4] = [
        ("UTC", 0, 0, 0, 1),
        ("Europe/London", 0, 3600, days(2020, 3, 29) * 86400 + 3600, days(2020, 10, 25) * 86400 + 3600),
        ("America/New_York", -18000, -14400, days(2020, 3, 8) * 86400 + 7 * 3600, days(2020, 11, 1) * 86400 + 6 * 3600),
        ("Asia/Kolkata", 19800, 19800, 0, 1),
    ];
    let dates: [(&[u8], [i32; 3]); 7] = [(b"28/03/2020", [2020, 3, 28]), (b"29/03/2020", [2020, 3, 29]), (b"24/10/2020", [2020, 10, 24]), (b"25/10/2020", [2020, 10, 25]), (b"29/02/2020", [2020, 2, 29]), (b"31/12/2020", [2020, 12, 31]), (b"01/11/2020", [2020, 11, 1])];
    let from: [(&[u8], i32); 4] = [(b"GMT", 0), (b"BST", 3600), (b"NST", -12600), (b"EST", -18000)];
    let (zone, std, dst, a, e) = zones[if deep { choose("output zone", 4) as usize } else { 1 + choose("output zone", 2) as usize }];
    let (day, ymd) = dates[if deep { choose("date", 7) } else { choose("date", 2) } as usize];
    let (abbr, o) = from[if deep { choose("zone", 4) } else { choose("zone", 2) * 2 } as usize];
    let (time, h, m) = clock();
    let got = date_in(&cat(&[ZONES, b"EST,UTC-05\n"]), abbr, day, &time, zone);
    check("accepted", got.is_some());
    let utc = days(ymd[0], ymd[1], ymd[2]) * 86400 + h * 3600 + m * 60 - o;
    let local = if split((utc >= a) & (utc < e)) { utc + dst } else { utc + std };
    let rel = local - days(ymd[0], ymd[1], ymd[2]) * 86400;
    let k = if split(rel < 0) { -1 } else if split(rel >= 86400) { 1 } else { 0 };
    cover(match k { 0 => "the same day", 1 => "the next day", _ => "the day before" });
    check("the local date", eq(&got.unwrap(), &date_of(ymd, k * 86400)));
}
