//! Faults of the file system: short, interrupted and failing reads and writes.
use super::util::*;
use super::vf::*;

pub const SHORT: u64 = 2;
pub const INTERRUPTED: u64 = 4;
pub const FAILED: u64 = 8;
pub const READ_SHORT: u64 = 32;
pub const READ_INTERRUPTED: u64 = 64;
pub const READ_FAILED: u64 = 128;
pub const COMMANDS: u8 = 7;
const TZ: &[u8] = b"abbreviation,utc_offset\nGMT,UTC+00\nBST,UTC+01\n";
const PAYPAL: &[u8] = b"\"Date\",\"Time\",\"Time zone\",\"Name\",\"Type\",\"Status\",\"Currency\",\"Amount\",\"Receipt ID\",\"Balance\"\n\"28/03/2020\",\"12:30:45\",\"GMT\",\"NAME\",\"k\",\"Pending\",\"GBP\",\"-5.10\",\"\",\"20.00\"\n\"29/03/2020\",\"12:30:45\",\"BST\",\"m\",\"k\",\"Pending\",\"GBP\",\"5.10\",\"7\",\"30.00\"\n";
const NATIONWIDE: &[u8] = b"\"Account Name:\",\"Current\"\n\"Account Balance:\",\"\xa3100.00\"\n\"Available Balance: \",\"\xa3100.00\"\n\n\"Date\",\"Transaction type\",\"Description\",\"Paid out\",\"Paid in\",\"Balance\"\n\"01 Jan 2020\",\"ATM\",\"NAME\",\"\xa310.00\",\"\",\"\xa3100.00\"\n\"02 Jan 2020\",\"ATM\",\"bar\",\"\",\"\xa310.00\",\"\xa3110.00\"\n";
const SCAN: &[u8] = b"1\t1\t0\t0\t0\t0\t0\t0\t0\t0\t-1\t\n2\t1\t1\t0\t0\t0\t0\t0\t0\t0\t-1\t\n3\t1\t1\t1\t0\t0\t0\t0\t0\t0\t-1\t\n4\t1\t1\t1\t1\t0\t0\t0\t9\t9\t-1\t\n5\t1\t1\t1\t1\t1\t0\t0\t9\t9\t9\tAccount\n5\t1\t1\t1\t1\t2\t0\t0\t9\t9\t9\tNumber\n5\t1\t1\t1\t1\t3\t0\t0\t9\t9\t9\t11-22-33\n5\t1\t1\t1\t1\t4\t0\t0\t9\t9\t9\t12345678\n4\t1\t1\t1\t2\t0\t0\t9\t9\t9\t-1\t\n5\t1\t1\t1\t2\t1\t1\t9\t9\t9\t9\tDate\n5\t1\t1\t1\t2\t2\t20\t9\t9\t9\t9\tDetails\n5\t1\t1\t1\t2\t3\t40\t9\t9\t9\t9\tPayments\n5\t1\t1\t1\t2\t4\t60\t9\t9\t9\t9\tReceipts\n5\t1\t1\t1\t2\t5\t80\t9\t9\t9\t9\tBalance\n4\t1\t1\t1\t3\t0\t0\t9\t9\t9\t-1\t\n5\t1\t1\t1\t3\t1\t1\t9\t9\t9\t9\t2020\n4\t1\t1\t1\t4\t0\t0\t9\t9\t9\t-1\t\n5\t1\t1\t1\t4\t1\t1\t9\t4\t9\t9\t05\n5\t1\t1\t1\t4\t2\t6\t9\t4\t9\t9\tMar\n5\t1\t1\t1\t4\t3\t20\t9\t9\t9\t9\tNAME\n5\t1\t1\t1\t4\t4\t40\t9\t9\t9\t9\t1.50\n";
const RULES: &[u8] = b"[Include(\"more\"), Chain(\"start\", [Rule(predicate: Account(Eq(\"A:B\")), action: SetAccount(\"D:E\"), result: Continue)])]";
const MORE: &[u8] = b"[Chain(\"other\", [Rule(predicate: True, action: Noop, result: Continue)])]";
const NAMES: &[u8] = b"{\"Current\": \"ns\"}";

fn sub(text: &[u8], long: usize) -> B {
    // NAME becomes a name of that length
    let k = (0..text.len()).find(|k| starts(&text[*k..], b"NAME"));
    match k { None => text.to_vec(), Some(k) => cat(&[&text[..k], &vec![b'n'; long], &text[k + 4..]]) }
}
/// What the program is to be run with: arguments, files it reads, files it writes.
pub struct Job { pub args: Vec<&'static str>, pub reads: Vec<&'static str>, pub writes: Vec<&'static str> }
/// Writes the files a command reads.
pub fn job(k: u8, to_stdout: bool, long: usize) -> Job {
    let a = sub(b"2020-01-01 NAME\n  A:B  GBP 1.00\n  ; :fp-aaa:\n  C:D  GBP -1.00\n  ; :fp-bbb:\n\n2020-01-02 foo\n  A:B  GBP 3.00\n  ; :fp-ccc:\n", long);
    let j = b"2020-01-03 bar\n  A:B  GBP 2.00\n  ; :fp-ddd:\n\n2020-01-02 amb\n  A:B  GBP 3.00\n  ; :fp-eee:\n\n";
    let bare = sub(b"2020-01-01 NAME\n  A:B  GBP 1.00\n  C:D  GBP -1.00\n  ; :fp-bbb:\n", long);
    let (args, files, writes): (Vec<&'static str>, Vec<(&'static str, B)>, Vec<&'static str>) = match k {
        0 => (vec!["fmt", "a", "b"], vec![("a", a), ("b", j.to_vec())], vec!["a", "b"]),
        1 => (vec!["generate-fingerprints", "a", "b"], vec![("a", bare), ("b", b"2020-01-03 bar\n  A:B  GBP 2.00\n".to_vec())], vec!["a", "b"]),
        2 => (vec!["apply-rules", "-o", "out", "a", "table", "rules"], vec![("a", a), ("rules", RULES.to_vec()), ("more", MORE.to_vec())], vec!["out"]),
        // the last transaction of b could be either of two
        3 => (vec!["merge", "-o", "out", "-u", "left", "a", "b"], vec![("a", cat(&[&a, b"\n2020-01-02 fog\n  A:B  GBP 3.00\n  ; :fp-fff:\n"])), ("b", j.to_vec())], vec!["out", "left"]),
        4 => (vec!["import", "-o", "out", "nationwide-csv", "a", "--fp-namespace", "lookup:names"], vec![("a", sub(NATIONWIDE, long)), ("names", NAMES.to_vec())], vec!["out"]),
        5 => (vec!["import", "-o", "out", "paypal-csv", "a", "tz", "--output-timezone", "UTC"], vec![("a", sub(PAYPAL, long)), ("tz", TZ.to_vec())], vec!["out"]),
        _ => {
            gm("gm", 1, 0);
            tesseract("tess", 0);
            (vec!["import", "-o", "out", "nationwide-pdf", "a", "./gm", "./tess", "--fp-namespace", "lookup:names"], vec![("a.0", sub(SCAN, long)), ("names", b"{\"11-22-33 12345678\": \"ns\"}".to_vec())], vec!["out"])
        }
    };
    let mut j = Job { args, reads: files.iter().map(|f| f.0).collect(), writes };
    for (n, t) in &files { write(n, t); }
    if to_stdout {
        for x in j.args.iter_mut() { if *x == "out" { *x = "-"; } }
        j.writes.retain(|w| *w != "out");
        if k < 2 { stdin(&files[0].1); j.args.truncate(1); j.args.push("-"); j.writes.clear(); j.reads.clear(); }
    }
    j
}
/// Fingerprints that generate-fingerprints made up do not matter.
fn same_ids(text: &[u8]) -> B {
    let mut v = Vec::new();
    let mut k = 0;
    while k < text.len() {
        if starts(&text[k..], b"fp-uuidb64-") && text.len() >= k + 33 { v.extend_from_slice(b"fp-new"); k += 33; } else { v.push(text[k]); k += 1; }
    }
    v
}
fn results(j: &Job, to_stdout: bool) -> Vec<Option<B>> {
    let mut v: Vec<Option<B>> = j.writes.iter().map(|w| read(w).map(|t| same_ids(&t))).collect();
    if to_stdout { v.push(Some(same_ids(&stdout()))); }
    v
}
pub const OLD: &[u8] = b"what was here before, which is longer than what is written over it ............................................................................................................................................................................................................................................................\n";

fn faulty(to_stdout: bool, commands: u8, budget: u64) {
    reset();
    let k = choose("command", commands);
    let long = [3usize, 3000][choose("length", 2) as usize];
    // without faults
    let j = job(k, to_stdout, long);
    check("the command works", run(&j.args) == 0);
    let want = results(&j, to_stdout);
    // and with them
    reset();
    let j = job(k, to_stdout, long);
    let old = flag("old files");
    if old { for w in &j.writes { if !j.reads.contains(w) { write(w, OLD); } } }
    let before: Vec<Option<B>> = j.reads.iter().chain(j.writes.iter()).map(|f| read(f)).collect();
    let errors = choose("kinds", 3);
    // (the csv crate reports an interrupted read)
    faults([SHORT | INTERRUPTED | READ_SHORT, SHORT | INTERRUPTED | FAILED, READ_SHORT | READ_INTERRUPTED | READ_FAILED][errors as usize], budget);
    let r = run(&j.args);
    faults(0, 0);
    check("it ends with success or an error", r == 0 || r == 1 || r == 2);
    if errors == 0 { check("short and interrupted calls are no failure", r == 0); }
    if r == 0 {
        cover("success");
        for (g, w) in results(&j, to_stdout).iter().zip(&want) { check("the whole output is there", g.is_some() && eq(g.as_ref().unwrap(), w.as_ref().unwrap())); }
        for f in &j.reads { if !j.writes.contains(f) { check("the input stays", read(f).is_some()); } }
    } else if errors == 2 {
        cover("an input could not be read");
        for (f, w) in j.reads.iter().chain(j.writes.iter()).zip(&before) { check("nothing is written when an input cannot be read", same_opt(&read(f), w)); }
        if to_stdout { check("nothing goes to standard output", stdout().is_empty()); }
    } else { cover("an output could not be written"); }
}
pub fn same_opt(x: &Option<B>, y: &Option<B>) -> bool {
    match (x, y) { (Some(x), Some(y)) => eq(x, y), (None, None) => true, _ => false }
}
/// Any two faults while files are written.
pub fn h_faults_files() { faulty(false, COMMANDS, 2); }
/// The same on standard output.
pub fn h_faults_stdout() { faulty(true, COMMANDS, 2); }
/// Any three faults.
pub fn h_faults_deep() { if flag("standard output") { faulty(true, COMMANDS, 3) } else { faulty(false, COMMANDS, 3) } }
