//! Where the output of import goes.
use super::h_nationwide as nw;
use super::h_paypal as pp;
use super::util::*;
use super::vf::*;

fn row() -> nw::Row { let one = vec![0xa3, b'1', b'.', b'0', b'0']; nw::Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: one.clone(), bal: one } }
fn put() -> B {
    write("in", &nw::statement(&[row()], true, b"Current"));
    check("accepted", run(&["import", "nationwide-csv", "in", "--fp-namespace", "fixed:ab"]) == 0);
    let v = stdout();
    check("standard output is the default", parse(&v).map_or(false, |t| t.len() == 1));
    check("nothing else is written", file_count() == 1);
    v
}
/// The namespace in place of every %FP_NS%.
fn expand(p: &[u8], ns: &[u8]) -> B {
    let mut v = Vec::new();
    let mut k = 0;
    while k < p.len() {
        if k + 7 <= p.len() && split(eq(&p[k..k + 7], b"%FP_NS%")) { v.extend_from_slice(ns); k += 7; } else { v.push(p[k]); k += 1; }
    }
    v
}
/// Every name made of the given pieces, with and without the options.
pub fn h_out_path() {
    nw::warm();
    let text = put();
    mkdir("d");
    let ns = bytes("namespace", 2, Dom::of(b"aB"));
    let dir = [&b""[..], b"d/", b"new/", b"new/sub/", b"d/%FP_NS%/", b"%FP_NS%/x/"][choose("directory", 6) as usize];
    let name = [&b"out"[..], b"%FP_NS%", b"a-%FP_NS%.b%FP_NS%", b"%FP_NS", b"FP_NS%", b"%%FP_NS%%", b"%fp_ns%"][choose("name", 7) as usize];
    let (sub, make, there) = (flag("substitute"), flag("make directories"), flag("an old file"));
    let p = cat(&[dir, name]);
    let path = if sub { expand(&p, &ns) } else { p.clone() };
    let path = String::from_utf8(path).unwrap();
    let in_new = dir.starts_with(b"new/") || dir.contains(&b'%');
    let possible = !in_new || make;
    if there && !in_new { write(&path, b"an old file, longer than what is written there now\nan old file, longer than what is written there now\nan old file, longer than what is written there now\n"); }
    let before = file_count();
    let spec = format!("fixed:{}", std::str::from_utf8(&ns).unwrap());
    let mut args = vec!["import", "-o", std::str::from_utf8(&p).unwrap(), "nationwide-csv", "in", "--fp-namespace", &spec];
    if sub { args.insert(1, "--sub-output-path"); }
    if make { args.insert(1, "--make-parent-dirs"); }
    let r = run(&args);
    if !possible { cover("no such directory"); check("a directory that is missing is not made without the option", r == 1); check("nothing is written", file_count() == before); return; }
    cover("written");
    check("accepted", r == 0);
    let got = read(&path);
    check("the file named is written", got.is_some());
    check("it holds the journal", got.unwrap().len() == text.len());
    check("no other file is written", file_count() == before + if there && !in_new { 0 } else { 1 });
    check("nothing goes to standard output", stdout().is_empty());
    check("the input stays", eq(&read("in").unwrap(), &nw::statement(&[row()], true, b"Current")));
}
/// Every short name.
pub fn h_out_name() {
    nw::warm();
    let text = put();
    let p = cat(&[b"o", &bytes("name", 2, ALPHA.or(DIGIT).or(Dom::of(b" .%~-_#"))), [&b""[..], b"%FP_NS%"][choose("with a namespace", 2) as usize]]);
    let sub = flag("substitute");
    let path = if sub { expand(&p, b"ab") } else { p.clone() };
    let mut args = vec!["import", "--make-parent-dirs", "-o", std::str::from_utf8(&p).unwrap(), "nationwide-csv", "in", "--fp-namespace", "fixed:ab"];
    if sub { args.insert(1, "--sub-output-path"); }
    check("accepted", run(&args) == 0);
    let got = read(std::str::from_utf8(&path).unwrap());
    check("the file named is written", got.is_some());
    check("it holds the journal", eq(&got.unwrap(), &text));
    check("no other file is written", file_count() == 2);
}
/// Standard output.
pub fn h_out_stdout() {
    nw::warm();
    let text = put();
    let (sub, make, dash) = (flag("substitute"), flag("make directories"), flag("named"));
    let mut args = vec!["import"];
    if sub { args.push("--sub-output-path"); }
    if make { args.push("--make-parent-dirs"); }
    if dash { args.extend(["--output", "-"]); }
    args.extend(["nationwide-csv", "in", "--fp-namespace", "fixed:ab"]);
    let r = run(&args);
    if sub || make { cover("refused"); check("the options need a file", r == 1); check("nothing is written", stdout().is_empty()); }
    else { cover("written"); check("accepted", r == 0); check("the journal goes to standard output", eq(&stdout(), &text)); }
    check("no file is written", file_count() == 1);
}
/// The namespaces of the other importer, and of the account.
pub fn h_out_namespace() {
    nw::warm();
    let name = cat(&[b"N", &bytes("account", 1, ALPHA)]);
    let kind = choose("namespace", 4);
    let r = if kind < 2 {
        write("in", &nw::statement(&[row()], true, &name));
        write("table", &cat(&[b"{\"", &name, b"\": \"zz\"}"]));
        run(&["import", "--sub-output-path", "-o", "x%FP_NS%", "nationwide-csv", "in", "--fp-namespace", ["account-name", "lookup:table"][kind as usize]])
    } else {
        write("in", &pp::statement(&[pp::Row::new()], 0));
        write("table", pp::ZONES);
        let mut a = vec!["import", "--sub-output-path", "-o", "x%FP_NS%", "paypal-csv", "in", "table", "--output-timezone", "UTC"];
        if kind == 3 { a.extend(["--fingerprint-namespace", "other"]); }
        run(&a)
    };
    check("accepted", r == 0);
    let want = match kind { 0 => cat(&[b"x", &name]), 1 => b("xzz"), 2 => b("xpaypal"), _ => b("xother") };
    check("the file named is written", exists(std::str::from_utf8(&want).unwrap()));
    check("no other file is written", file_count() == 3);
}
/// An import that fails makes no directories and writes nothing.
pub fn h_out_refused() {
    nw::warm();
    let one = vec![0xa3, b'1', b'.', b'0', b'0'];
    let mut r = row();
    let mut args = vec!["import", "--make-parent-dirs", "-o", "d/out", "nationwide-csv", "in", "--fp-namespace", "fixed:ab"];
    match choose("what", 4) { 0 => r.out = one, 1 => r.in_ = b(""), 2 => args[5] = "none", _ => args[7] = "fixed:a b" }
    write("in", &nw::statement(&[row(), r], true, b"Current"));
    if flag("substitute") { args.insert(1, "--sub-output-path"); }
    check("refused", run(&args) == 1);
    check("no file is written", file_count() == 1);
    check("no directory is made", !exists("d"));
    mkdir("d");
    write("d/out", b"before");
    check("refused", run(&args) == 1);
    check("the file stays", eq(&read("d/out").unwrap(), b"before"));
}
/// fixed names only: a directory in the place of the output.
pub fn h_out_directory() {
    nw::warm();
    put();
    mkdir("d");
    mkdir("d/e");
    let p = ["d", "d/", "d/e", ".", "in/x"][choose("path", 5) as usize];
    check("refused", run(&["import", "--make-parent-dirs", "-o", p, "nationwide-csv", "in"]) == 1);
    check("no file is written", file_count() == 1);
}
