//! Commands whose input is missing, damaged or senseless.
use super::h_faults::*;
use super::util::*;
use super::vf::*;

fn contents(j: &Job) -> Vec<Option<B>> { j.reads.iter().chain(j.writes.iter()).map(|f| read(f)).collect() }
/// A command that fails has written nothing.
fn untouched(j: &Job, before: &[Option<B>], files: usize, to_stdout: bool) {
    for (f, w) in j.reads.iter().chain(j.writes.iter()).zip(before) { check("a command that fails leaves files as they were", same_opt(&read(f), w)); }
    check("a command that fails makes no files", file_count() == files);
    if to_stdout { check("a command that fails prints no journal", stdout().is_empty()); }
}
fn warm() {
    reset();
    for k in 0..COMMANDS { let j = job(k, false, 3); check("the command works", run(&j.args) == 0); reset(); }
}
/// Every kind of bad input in the place of every file of every command.
pub fn h_fails_kinds() {
    warm();
    let k = choose("command", COMMANDS);
    let to_stdout = flag("standard output");
    let j = job(k, to_stdout, 3);
    let old = flag("old files");
    if old { for w in &j.writes { if !j.reads.contains(w) { write(w, OLD); } } }
    let which: &str = if j.reads.is_empty() { "<stdin>" } else { j.reads[choose("file", j.reads.len() as u8) as usize] };
    let text = if which == "<stdin>" { b"2020-01-01 foo\n  A:B  GBP 1.00\n".to_vec() } else { read(which).unwrap() };
    let put = |t: &[u8]| if which == "<stdin>" { stdin(t) } else { write(which, t) };
    let mut must = true;
    match choose("kind", 8) {
        0 => { if which == "<stdin>" { put(b"\xff") } else { remove(which) } }
        1 => { if which == "<stdin>" { put(b"\xc3\n") } else { remove(which); mkdir(which) } }
        // not text
        2 => { let at = choose("at", 3) as usize * text.len() / 2; put(&cat(&[&text[..at], &bytes("byte", 1, Dom::range(0x80, 0xff)), &text[at..]])); must = !(k == 4 && which == "a") && k != 5; }
        // not of this format
        3 => { put(&cat(&[b"~", &bytes("junk", 2, TEXT), b"\n"])); must = k != 5 || which != "a"; }
        4 => { put(b""); must = k > 3 || (k == 2 && which != "a"); must = must && k != 5; }
        // cut off
        5 => { put(&text[..text.len() / 2]); must = false; }
        // more than belongs there
        6 => { put(&cat(&[&text, b"\n~~ ( [ { \"\n"])); must = k != 4 || which != "a"; }
        // data of another command
        _ => { put(b"include other\n"); must = k != 0 && (k != 5 || which != "a"); }
    }
    let before = contents(&j);
    let files = file_count();
    let r = run(&j.args);
    if must { check("bad input is an error", r == 1 || r == 2); }
    check("it ends with success or an error", r == 0 || r == 1 || r == 2);
    if r != 0 { cover("refused"); untouched(&j, &before, files, to_stdout); } else { cover("accepted"); }
}
/// Some bytes of one file are others (`how` 0), or are added (1), or one is left out (2).
fn damaged(k: u8, n: usize, how: u8, panics: bool) {
    warm();
    let j = job(k, false, 3);
    let which = j.reads[choose("file", j.reads.len() as u8) as usize];
    let mut text = read(which).unwrap();
    let at = {
        let hi = choose("at, high", (text.len() / 16 + 1) as u8) as usize;
        hi * 16 + choose("at, low", 16) as usize
    };
    assume(at + if how == 1 { 0 } else { n } <= text.len());
    let by = bytes("byte", if how == 2 { 0 } else { n }, BYTE);
    text = cat(&[&text[..at], &by, &text[at + if how == 1 { 0 } else { n }..]]);
    write(which, &text);
    if flag("old files") { for w in &j.writes { if !j.reads.contains(w) { write(w, OLD); } } }
    let before = contents(&j);
    let files = file_count();
    let r = run(&j.args);
    if r == 101 && parser_panicked() { cover("the parser panics"); if panics { check("the parser of journals does not panic", false); } }
    else { check("it ends with success or an error", r == 0 || r == 1 || r == 2); }
    if r != 0 { cover("refused"); untouched(&j, &before, files, false); } else { cover("accepted"); }
}
pub fn h_byte_fmt() { damaged(0, 1, 0, true); }
pub fn h_more_fmt() { damaged(0, 1, 1, false); }
pub fn h_less_fmt() { damaged(0, 1, 2, false); }
pub fn h_two_fmt() { damaged(0, 2, 0, true); }
pub fn h_byte_fpgen() { damaged(1, 1, 0, true); }
pub fn h_more_fpgen() { damaged(1, 1, 1, false); }
pub fn h_less_fpgen() { damaged(1, 1, 2, false); }
pub fn h_two_fpgen() { damaged(1, 2, 0, true); }
pub fn h_byte_rules() { damaged(2, 1, 0, true); }
pub fn h_more_rules() { damaged(2, 1, 1, false); }
pub fn h_less_rules() { damaged(2, 1, 2, false); }
pub fn h_two_rules() { damaged(2, 2, 0, true); }
pub fn h_byte_merge() { damaged(3, 1, 0, true); }
pub fn h_more_merge() { damaged(3, 1, 1, false); }
pub fn h_less_merge() { damaged(3, 1, 2, false); }
pub fn h_two_merge() { damaged(3, 2, 0, true); }
pub fn h_byte_nationwide() { damaged(4, 1, 0, true); }
pub fn h_more_nationwide() { damaged(4, 1, 1, false); }
pub fn h_less_nationwide() { damaged(4, 1, 2, false); }
pub fn h_two_nationwide() { damaged(4, 2, 0, true); }
pub fn h_byte_paypal() { damaged(5, 1, 0, true); }
pub fn h_more_paypal() { damaged(5, 1, 1, false); }
pub fn h_less_paypal() { damaged(5, 1, 2, false); }
pub fn h_two_paypal() { damaged(5, 2, 0, true); }
pub fn h_byte_pdf() { damaged(6, 1, 0, true); }
pub fn h_more_pdf() { damaged(6, 1, 1, false); }
pub fn h_less_pdf() { damaged(6, 1, 2, false); }
pub fn h_two_pdf() { damaged(6, 2, 0, true); }
fn last(text: &[u8], more: &[u8]) -> B { cat(&[text, more]) }
/// Input that can be read and parsed, and is refused only when the work is nearly done.
fn late(k: u8) -> (&'static str, Job) {
    let of = |kind: u8| job(kind, false, 3);
    let add = |f: &str, t: &[u8]| { let x = last(&read(f).unwrap(), t); write(f, &x); };
    let rules = |action: &str| write("rules", &cat(&[b"[Chain(\"start\", [Rule(predicate: TransactionDescription(Eq(\"foo\")), action: ", action.as_bytes(), b", result: Continue)]), Chain(\"b\", [Rule(predicate: True, action: JumpChain(\"b\"), result: Continue)])]"]));
    match k {
        0 => { let j = of(2); rules("Error(\"no\")"); ("a rule reports an error", j) }
        1 => { let j = of(2); rules("JumpChain(\"b\")"); ("rules jump without end", j) }
        2 => { let j = of(2); rules("All([Noop, SetAccount(\"X:Y\"), Error(\"no\")])"); ("a rule reports an error after others", j) }
        3 => { let j = of(2); rules("JumpChain(\"c\")"); ("rules jump to nowhere", j) }
        4 => { let j = of(2); write("rules", b"[Chain(\"other\", [])]"); ("no start", j) }
        5 => { let j = of(2); rules("ReplaceTransactionDescription((regex: \"(\", replacement: \"\"))"); ("a bad regular expression", j) }
        6 => { let j = of(2); add("a", b"\n; a comment\n"); ("a journal with more than transactions", j) }
        7 => { let j = of(3); add("b", b"2020-01-03 zzz\n  A:B  GBP 2.00\n"); ("a posting without fingerprint at the end", j) }
        8 => { let j = of(3); add("b", b"2020-01-03 zzz\n  A:B  GBP 2.00\n  ; :fp-ddd:\n"); ("a fingerprint twice", j) }
        9 => { let j = of(3); add("b", b"2020-01-01 zzz\n  A:B  GBP 1.00\n  ; :fp-aaa:\n  A:B  GBP 3.00\n  ; :fp-ccc:\n"); ("postings of different transactions", j) }
        10 => { let j = of(3); add("b", b"2020-01-01 zzz\n  A:B  GBP 1.00\n  ; :fp-zzz:\n  ; :candidate-fp-aaa:\n"); ("a candidate tag", j) }
        11 => { let mut j = of(3); j.args = vec!["merge", "-o", "out", "a", "b"]; j.writes.pop(); ("nowhere to put what cannot be merged", j) }
        12 => { let mut j = of(3); j.args.push("c"); ("one more file, which is missing", j) }
        13 => { let j = of(4); add("a", b"\"32 Jan 2020\",\"ATM\",\"x\",\"\xa310.00\",\"\",\"\xa3100.00\"\n"); ("a bad date at the end", j) }
        14 => { let j = of(4); add("a", b"\"02 Jan 2020\",\"ATM\",\"x\",\"\xa310.0x\",\"\",\"\xa3100.00\"\n"); ("a bad amount at the end", j) }
        15 => { let j = of(4); add("a", b"\"02 Jan 2020\",\"ATM\",\"x\",\"\xa310.00\",\"\xa310.00\",\"\xa3100.00\"\n"); ("paid in and out at the end", j) }
        16 => { let j = of(4); add("a", b"\"02 Jan 2020\",\"ATM\",\"x\"\n"); ("a short row at the end", j) }
        17 => { let j = of(4); write("names", b"{\"Other\": \"ns\"}"); ("an account that is not in the table", j) }
        18 => { let j = of(4); write("names", b"{\"Current\": \"a b\"}"); ("a bad namespace", j) }
        19 => { let j = of(5); add("a", b"\"30/02/2020\",\"12:30:45\",\"GMT\",\"n\",\"k\",\"Pending\",\"GBP\",\"1\",\"\",\"1\"\n"); ("a bad date at the end", j) }
        20 => { let j = of(5); add("a", b"\"29/03/2020\",\"12:30:45\",\"XYZ\",\"n\",\"k\",\"Pending\",\"GBP\",\"1\",\"\",\"1\"\n"); ("an unknown zone at the end", j) }
        21 => { let j = of(5); add("a", b"\"29/03/2020\",\"12:30:45\",\"GMT\",\"\",\"k\",\"Pending\",\"GBP\",\"1\",\"\",\"1\"\n"); ("nobody has a name", j) }
        22 => { let j = of(5); add("a", b"\"29/03/2020\",\"12:30:45\",\"GMT\",\"n\",\"k\",\"Pending\",\"GBP\",\"1\"\n"); ("a short row at the end", j) }
        23 => { let j = of(5); add("tz", b"EST\n"); ("a zone without offset at the end", j) }
        24 => { let j = of(6); add("a.0", b"4\t1\t1\t1\t5\t0\t0\t20\t9\t9\t-1\t\n5\t1\t1\t1\t5\t1\t1\t24\t4\t9\t9\t32\n5\t1\t1\t1\t5\t2\t6\t24\t4\t9\t9\tMar\n5\t1\t1\t1\t5\t3\t20\t24\t9\t9\t9\tx\n5\t1\t1\t1\t5\t4\t40\t24\t9\t9\t9\t1.50\n"); ("a bad date at the end", j) }
        25 => { let j = of(6); write("names", b"{\"Other\": \"ns\"}"); ("an account that is not in the table", j) }
        26 => { let j = of(6); add("a.0", b"x\n"); ("a row that is none at the end", j) }
        27 => { let j = of(6); gm("gm", 1, 1); ("a program fails", j) }
        28 => { let j = of(6); tesseract("tess", 1); ("a program fails", j) }
        29 => { let j = of(0); write("b", b"2020-01-03 bar\n  A:B  GBP 2.00\n~\n"); ("the last file is bad", j) }
        _ => { let j = of(1); write("b", b"2020-01-03 bar\n  A:B  GBP 2.00\n\n; comment\n"); ("the last file has more than transactions", j) }
    }
}
/// The work fails when everything has been read.
pub fn h_fails_late() {
    warm();
    let (what, mut j) = late(choose("failure", 31));
    note(what.as_bytes());
    let to = choose("output", 3);
    let mut stdout_too = false;
    if j.writes.contains(&"out") {
        match to {
            0 => {}
            1 => { stdout_too = true; for x in j.args.iter_mut() { if *x == "out" { *x = "-"; } } j.writes.retain(|w| *w != "out"); }
            // over an input file
            _ => { let f: &str = j.reads[j.reads.len() - 1]; for x in j.args.iter_mut() { if *x == "out" { *x = f; } } j.writes.retain(|w| *w != "out"); }
        }
    } else { assume(to == 0); }
    if flag("old files") { for w in &j.writes { if !j.reads.contains(w) { write(w, OLD); } } }
    let before = contents(&j);
    let files = file_count();
    let r = run(&j.args);
    check("it is an error", r == 1 || r == 2);
    cover("refused");
    untouched(&j, &before, files, stdout_too);
}
