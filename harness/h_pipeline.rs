//! Import, merge, import again.
use super::h_nationwide::*;
use super::imports::*;
use super::util::*;
use super::vf::*;

/// A statement is imported and merged; the next statement overlaps with it. Every row ends up in
/// the journal once, whatever the rows say.
pub fn h_pipeline_nw() {
    warm();
    let six = flag("six columns");
    let one = || vec![0xa3, b'1', b'.', b'0', b'0'];
    // amounts that cannot be taken for each other
    let row = |k: &str, digits: Dom| {
        let a = cat(&[b"\xa3", &bytes(&format!("amount {k}"), 1, digits), b".00"]);
        let (out, in_) = if flag(&format!("in {k}")) { (b(""), a) } else { (a, b("")) };
        Row { day: choose(&format!("day {k}"), 2), kind: b("k"), text: bytes(&format!("text {k}"), 1, Dom::range(b'a', b'z')), out, in_, bal: one() }
    };
    let rows = [row("1", Dom::range(b'1', b'4')), row("2", Dom::range(b'5', b'9'))];
    write("a", &statement(&rows[..1], six, b"Current"));
    write("b", &statement(&rows, six, b"Current"));
    let ns = "fixed:ns";
    check("imported", run(&["import", "-o", "ja", "nationwide-csv", "a", "--fp-namespace", ns]) == 0);
    check("imported again", run(&["import", "-o", "jb", "nationwide-csv", "b", "--fp-namespace", ns]) == 0);
    check("merged", run(&["merge", "-o", "m", "-u", "u", "ja"]) == 0);
    check("merged again", run(&["merge", "-o", "n", "-u", "u", "m", "jb"]) == 0);
    let got = parse(&read("n").unwrap()).unwrap();
    let left = if exists("u") { parse(&read("u").unwrap()).unwrap() } else { Vec::new() };
    check("every row is there once", got.len() == 2 && left.is_empty());
    let mut want = wants(&rows, six, b"ns", b"Current");
    if want[1].date < want[0].date { want.swap(0, 1); }
    // tags that merge adds and removes are not of interest here
    compare_amounts("merged", &got, &want);
}
