//! Values at and beyond the limits, in every kind of input.
use super::util::*;
use super::vf::*;

fn ends(args: &[&str]) -> i32 {
    let r = run(args);
    if r == 101 && parser_panicked() { check("the parser of journals does not panic", false); }
    else { check("it ends with success or an error", r == 0 || r == 1 || r == 2); }
    cover(if r == 0 { "accepted" } else { "refused" });
    r
}
/// A journal with `x` in one place, through every command that reads journals.
fn journal(text: &[u8]) {
    reset();
    write("a", text);
    write("rules", b"[Chain(\"start\", [Rule(predicate: True, action: AddPostingFlagTag(\"x\"), result: Continue)])]");
    match choose("command", 4) {
        0 => { ends(&["fmt", "a"]); }
        1 => { ends(&["generate-fingerprints", "a"]); }
        2 => { ends(&["apply-rules", "-o", "o", "a", "table", "rules"]); }
        _ => { ends(&["merge", "-o", "o", "-u", "u", "a", "a"]); }
    }
}
fn warm() { reset(); write("w", b"2020-01-01 * foo ; c\n  A:B  GBP 1.00 = GBP 2.00\n  ; :fp-aaa:\n"); check("warm", run(&["fmt", "w"]) == 0); }
/// Any characters in the place of a field.
pub fn h_panic_journal() {
    warm();
    let x = bytes("text", 3, PRINT.or(Dom::of(b"\t\n\r\xc3\xa9\xff")));
    let f: [&[u8]; 8] = [b"2020-01-01", b" * ", b"(c) ", b"foo", b"A:B", b"GBP 1.00", b"GBP 2.00", b":fp-aaa: k: v"];
    let k = choose("field", 8) as usize;
    let g = |i: usize| if i == k { x.clone() } else { f[i].to_vec() };
    journal(&cat(&[&g(0), &g(1), &g(2), &g(3), b"\n  ", &g(4), b"  ", &g(5), b" = ", &g(6), b"\n  ; ", &g(7), b"\n"]));
}
/// Dates that do not exist, and amounts of any number of digits.
pub fn h_panic_numbers() {
    warm();
    if flag("date") {
        let d = cat(&[[&b"00"[..], b"02", b"09", b"13"][choose("month", 4) as usize], &bytes("day", 2, DIGIT)]);
        let date = cat(&[[&b"2019-"[..], b"0000-", b"9999-", b"2020-"][choose("year", 4) as usize], &d[..2], b"-", &d[2..]]);
        return journal(&cat(&[&date, b"=", &date, b" x\n  A:B  GBP1\n  ; :fp-aaa:\n"]));
    }
    let n = [1usize, 19, 28, 29, 40][choose("whole", 5) as usize];
    let m = [0usize, 1, 28, 29, 60][choose("fraction", 5) as usize];
    let nine = b"09"[choose("digit", 2) as usize];
    let mut q = if flag("negative") { b("-") } else { b("") };
    q.extend(vec![nine; n]);
    if m > 0 { q.push(b'.'); q.extend(vec![nine; m]); }
    journal(&cat(&[b"2020-01-01 x\n  A:B  GBP", &q, b"\n  ; :fp-aaa:\n  A:C  1 = GBP", &q, b"\n  ; :fp-bbb:\n"]));
}
/// Regular expressions, replacements and names of any characters.
pub fn h_panic_rules() { panic_rules(2) }
pub fn h_panic_rules_deep() { panic_rules(3) }
fn panic_rules(n: usize) {
    warm();
    let x = if flag("any") { bytes("text", n - 1, PRINT.minus(b"\"\\")) } else { bytes("special", n, Dom::of(b"([{}?*|^$.-<1P")) };
    let e = |s: &[u8]| s.to_vec();
    let (p, a): (B, B) = match choose("where", 7) {
        0 => (cat(&[b"Account(Matches(\"", &x, b"\"))"]), e(b"Noop")),
        1 => (e(b"True"), cat(&[b"ReplaceTransactionDescription((regex: \"", &x, b"\", replacement: \"r\"))"])),
        2 => (e(b"True"), cat(&[b"ReplaceTransactionDescription((regex: \"(f)(?P<n>o)\", replacement: \"", &x, b"\"))"])),
        3 => (cat(&[b"TransactionDescription(AsLower(Contains(\"", &x, b"\")))"]), cat(&[b"SetTransactionDescription(\"", &x, b"\")"])),
        4 => (cat(&[b"PostingValueTag(\"", &x, b"\", Eq(\"", &x, b"\"))"]), cat(&[b"AddPostingValueTag(\"", &x, b"\", \"", &x, b"\")"])),
        5 => (e(b"True"), cat(&[b"SetAccount(\"", &x, b"\")"])),
        _ => (cat(&[b"PostingFlagTag(\"", &x, b"\")"]), cat(&[b"JumpChain(\"", &x, b"\")"])),
    };
    reset();
    write("a", b"2020-01-01 foo\n  A:B  GBP1\n  ; :x:\n  ; k: v\n\n");
    write("rules", &cat(&[b"[Chain(\"start\", [Rule(predicate: ", &p, b", action: ", &a, b", result: Continue)])]"]));
    if ends(&["apply-rules", "-o", "o", "a", "table", "rules"]) == 0 {
        // whatever the rules made of it can be given back to the program
        write("rules", b"[Chain(\"start\", [])]");
        ends(&["apply-rules", "-o", "p", "o", "table", "rules"]);
    }
}
/// Predicates and actions nested as deep as one likes.
pub fn h_panic_nested() {
    warm();
    let n = [1usize, 10, 50, 60, 100, 120, 126, 127, 128, 200, 1000][choose("depth", 11) as usize];
    let mut s = Vec::new();
    let k = choose("kind", 3);
    let (open, inner, close): (&[u8], &[u8], &[u8]) = match k { 0 => (b"Not(", b"True", b")"), 1 => (b"All([", b"True", b"])"), _ => (b"All([", b"Noop", b"])") };
    for _ in 0..n { s.extend_from_slice(open); }
    s.extend_from_slice(inner);
    for _ in 0..n { s.extend_from_slice(close); }
    reset();
    write("a", b"2020-01-01 foo\n  A:B  GBP1\n\n");
    write("rules", &if k < 2 { cat(&[b"[Chain(\"start\", [Rule(predicate: ", &s, b", action: Noop, result: Continue)])]"]) } else { cat(&[b"[Chain(\"start\", [Rule(predicate: True, action: ", &s, b", result: Continue)])]"]) });
    ends(&["apply-rules", "-o", "o", "a", "table", "rules"]);
}
/// Dates, times, zones and amounts of PayPal rows.
fn paypal(field: u8) {
    super::h_paypal::warm();
    let mut r = super::h_paypal::Row::new();
    let hmm = DIGIT.or(Dom::of(b":/.,-+ eE"));
    match field {
        0 => { let d = bytes("date", 2, DIGIT); let m: &[u8] = [&b"00"[..], b"02", b"09", b"12", b"13", b"99"][choose("month", 6) as usize]; r.on = Some(cat(&[&d, b"/", m, [&b"/2020"[..], b"/0000", b"/9999", b"/1582", b"/20"][choose("year", 5) as usize]])); }
        1 => { let d = bytes("clock", 4, DIGIT); r.clock = Some(cat(&[&d[..2], b":", &d[2..], [&b":00"[..], b":59", b":60", b":61", b""][choose("second", 5) as usize]])); }
        2 => r.on = Some(cat(&[&bytes("date", 2, hmm), b"/03/2020"])),
        3 => r.clock = Some(cat(&[&bytes("clock", 2, hmm), b":30:00"])),
        4 => r.amount = cat(&[b"1", &bytes("amount", 3, hmm)]),
        _ => { let d = b"0179"[choose("digit", 4) as usize]; let n = [1usize, 18, 19, 20, 28, 29, 30, 40][choose("whole", 8) as usize]; let m = [0usize, 2, 28, 29, 40][choose("fraction", 5) as usize]; let mut q = vec![d; n]; if m > 0 { q.push(b'.'); q.extend(vec![d; m]); } if flag("balance") { r.bal = q } else { r.amount = q } }
    }
    write("in", &super::h_paypal::statement(&[r], 0));
    ends(&["import", "-o", "o", "paypal-csv", "in", "tz", "--output-timezone", ["UTC", "Europe/London", "Pacific/Apia"][choose("zone", 3) as usize]]);
}
pub fn h_panic_pp_date() { paypal(0); }
pub fn h_panic_pp_clock() { paypal(1); }
pub fn h_panic_pp_text() { paypal(2 + choose("field", 2)); }
pub fn h_panic_pp_amount() { paypal(4); }
pub fn h_panic_pp_digits() { paypal(5); }
/// Offsets of time zones, far from and close to the limits.
pub fn h_panic_zones() {
    super::h_paypal::warm();
    let d = bytes("offset", 4, DIGIT);
    let sign: &[u8] = [&b"+"[..], b"-"][choose("sign", 2) as usize];
    let o = match choose("form", 3) { 0 => cat(&[b"UTC", sign, &d[..2], b":", &d[2..]]), 1 => cat(&[b"UTC", sign, &d]), _ => cat(&[b"UTC", sign, &d[..2]]) };
    write("tz", &cat(&[b"abbreviation,utc_offset\nGMT,", &o, b"\n"]));
    let mut r = super::h_paypal::Row::new();
    let (on, clock): (&[u8], &[u8]) = [(&b"28/03/2020"[..], &b"12:30:45"[..]), (b"31/12/9999", b"23:59:59"), (b"01/01/0001", b"00:00:00"), (b"01/01/0000", b"00:00:00")][choose("when", 4) as usize];
    r.on = Some(on.to_vec());
    r.clock = Some(clock.to_vec());
    write("in", &super::h_paypal::statement(&[r], 0));
    ends(&["import", "-o", "o", "paypal-csv", "in", "tz", "--output-timezone", ["UTC", "Pacific/Apia"][choose("zone", 2) as usize]]);
}
/// Dates and amounts of Nationwide rows.
pub fn h_panic_nationwide() {
    super::h_nationwide::warm();
    let mut date = b("01 Jan 2020");
    let mut out = cat(&[&[0xa3], b"1.00"]);
    let mut bal = vec![0xa3, b'1', b'.', b'0', b'0'];
    match choose("field", 4) {
        0 => { let d = bytes("date", 2, DIGIT); let m = [&b" Feb "[..], b" feb ", b" February ", b" 02 ", b" Xyz "][choose("month", 5) as usize]; date = cat(&[&d, m, [&b"2020"[..], b"0000", b"9999", b"20", b"99999999999", b"-1"][choose("year", 6) as usize]]); }
        1 => date = bytes("date", 4, PRINT),
        2 => { let d = b"0179"[choose("digit", 4) as usize]; let n = [1usize, 17, 18, 19, 20, 28, 29, 30, 40][choose("whole", 9) as usize]; out = cat(&[&[0xa3], &vec![d; n], b".", &vec![d; 2]]); if flag("balance") { bal = out.clone(); } }
        _ => bal = cat(&[&[0xa3], &bytes("balance", 3, BYTE)]),
    }
    write("in", &cat(&[b"\"Account Name:\",\"Current\"\n\"Account Balance:\",\"", &bal, b"\"\n\"Available Balance: \",\"", &bal, b"\"\n\n\"Date\",\"Transaction type\",\"Description\",\"Paid out\",\"Paid in\",\"Balance\"\n\"", &date, b"\",\"ATM\",\"x\",\"", &out, b"\",\"\",\"", &bal, b"\"\n"]));
    ends(&["import", "-o", "o", "nationwide-csv", "in"]);
}
