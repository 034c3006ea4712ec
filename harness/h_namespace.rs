//! Fingerprint namespaces and the tags made of them.
use super::h_nationwide::*;
use super::imports::*;
use super::util::*;
use super::vf::*;

fn one() -> B { vec![0xa3, b'1', b'.', b'0', b'0'] }
fn row() -> Row { Row { day: 0, kind: b("k"), text: b("t"), out: b(""), in_: one(), bal: one() } }
/// Whether every character is one that a namespace may have.
pub fn allowed(ns: &[u8]) -> bool {
    let mut r = true;
    for c in ns { r &= c.is_ascii_alphanumeric() | (*c == b'_') | (*c == b'+') | (*c == b'/'); }
    r
}
/// fp-ALGORITHM.VERSION.NS-HASH, the hash 27 characters of base64.
fn well_formed(tag: &[u8], alg: &[u8], ns: &[u8]) -> bool {
    let head = cat(&[b"fp-", alg, b".", ns, b"-"]);
    if tag.len() != head.len() + 27 { return false; }
    let mut r = starts(tag, &head);
    for c in &tag[head.len()..] { r &= c.is_ascii_alphanumeric() | (*c == b'+') | (*c == b'/'); }
    r
}
/// What import wrote to `out` has one well-formed fingerprint per posting, which merge recognises.
fn recognised(alg: &[u8], ns: &[u8], trns: usize, merge: bool) {
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    let got = got.unwrap();
    check("every transaction is there", got.len() == trns);
    distinct(&got);
    for t in &got { check("two postings", t.posts.len() == 2); for p in &t.posts {
        let f = p.c.fps();
        check("one fingerprint", f.len() == 1);
        check("the fingerprint is well formed", well_formed(&f[0], alg, ns));
    } }
    if !merge { return; }
    // a journal whose postings have fingerprints can be merged; merged twice, it is recognised
    check("the postings are recognised", run(&["merge", "-o", "m", "out"]) == 0);
    check("and again", run(&["merge", "-o", "n", "m", "out"]) == 0);
    let again = parse(&read("n").unwrap()).unwrap();
    check("nothing is added", again.len() == trns);
    for (t, g) in again.iter().zip(&got) { check("nothing is added to a transaction", t.posts.len() == 2); for (p, q) in t.posts.iter().zip(&g.posts) { check("the fingerprint stays", same_set(&p.c.fps(), &q.c.fps())); } }
}
fn import_with(spec: &str) -> i32 {
    write("out", b"before");
    write("in", &statement(&[row()], true, b"Current"));
    run(&["import", "-o", "out", "nationwide-csv", "in", "--fp-namespace", spec])
}
fn outcome(r: i32, ok: bool, ns: &[u8], merge: bool) {
    if split(ok) {
        cover("accepted");
        check("a namespace of allowed characters is accepted", r == 0);
        recognised(b"nwcsv6.1", ns, 1, merge);
    } else {
        cover("refused");
        check("any other namespace is refused", r == 1);
        check("nothing is written", eq(&read("out").unwrap(), b"before"));
    }
}
/// A namespace given on the command line.
pub fn h_ns_fixed() {
    warm();
    let n = choose("length", 4) as usize;
    let ns = bytes("namespace", n, PRINT.or(Dom::of(b"\n\t")));
    let r = import_with(std::str::from_utf8(&cat(&[b"fixed:", &ns])).unwrap());
    outcome(r, allowed(&ns), &ns, n == 1);
}
/// The account name as the namespace.
pub fn h_ns_name() {
    warm();
    let name = bytes("name", 2, BYTE);
    write("out", b"before");
    write("in", &cat(&[b"\"Account Name:\",", &quoted(&name), &statement(&[row()], true, b"")[18..]]));
    let ns = field(&utf8(&name));
    let r = run(&["import", "-o", "out", "nationwide-csv", "in", "--fp-namespace", "account-name"]);
    outcome(r, allowed(&ns), &ns, false);
}
/// A table of namespaces by account name.
pub fn h_ns_lookup() {
    warm();
    let key = bytes("key", 2, ALPHA);
    let value = bytes("value", 2, PRINT.minus(b"\"\\"));
    let other = flag("other entry");
    let name = bytes("name", 2, ALPHA);
    let mut t = b("{");
    if other { t.extend_from_slice(b"\"zz\": \"q\", "); }
    t.extend_from_slice(&cat(&[b"\"", &key, b"\": \"", &value, b"\"}"]));
    write("table", &t);
    write("out", b"before");
    write("in", &statement(&[row()], true, &name));
    if other { assume(!eq(&key, b"zz")); }
    let r = run(&["import", "-o", "out", "nationwide-csv", "in", "--fp-namespace", "lookup:table"]);
    if split(eq(&name, &key)) { outcome(r, allowed(&value), &value, false); }
    else if other && split(eq(&name, b"zz")) { outcome(r, true, b"q", false); }
    else { cover("not in the table"); check("an account that is not in the table is refused", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); }
}
/// The namespace made of the account name; always allowed, the same for the same name only.
pub fn h_ns_generated() {
    warm();
    // forty names whose hashes have all the characters of base64 in all places, or any name
    let name = if flag("a given name") { format!("n{}", choose("which", 40)).into_bytes() } else { bytes("name", 2, ALPHA) };
    write("in", &statement(&[row()], true, &name));
    check("accepted", run(&["import", "-o", "out", "nationwide-csv", "in"]) == 0);
    let mut m = M::new();
    m.str(b"Nationwide");
    m.str(&name);
    let ns = base64(&sha1(&m.0))[..8].to_vec();
    recognised(b"nwcsv6.1", &ns, 1, true);
    check("the default is the generated one", run(&["import", "-o", "other", "nationwide-csv", "in", "--fp-namespace", "generated"]) == 0);
    check("and gives the same", eq(&read("out").unwrap(), &read("other").unwrap()));
}
/// What else can be given as a namespace is refused.
pub fn h_ns_bad() {
    warm();
    let spec = cat(&[b"f", &bytes("spec", 3, Dom::of(b"ixed:l"))]);
    let r = import_with(std::str::from_utf8(&spec).unwrap());
    check("refused", r != 0 && r != 101);
    check("nothing is written", eq(&read("out").unwrap(), b"before"));
    let t = bytes("table", 3, Dom::of(b"{}\"a:[("));
    write("table", &t);
    let r = import_with("lookup:table");
    check("a bad table is refused", r != 0 && r != 101);
    check("a missing table is refused", import_with("lookup:none") != 0);
    check("nothing is written", eq(&read("out").unwrap(), b"before"));
}
/// The namespace of PayPal fingerprints, and of the legacy ones.
pub fn h_ns_paypal() {
    super::h_paypal::warm();
    let n = choose("length", 4) as usize;
    let ns = bytes("namespace", n, PRINT.or(Dom::of(b"\n\t")));
    let legacy = flag("legacy");
    let mut r = super::h_paypal::Row::new();
    if flag("other") { r.name = b("m"); r.pending = true; }
    write("in", &super::h_paypal::statement(&[r], 0));
    write("out", b"before");
    let text = ns.clone();
    let spec = format!("--fingerprint-namespace={}", std::str::from_utf8(&text).unwrap());
    let mut args = vec!["import", "-o", "out", "paypal-csv", "in", "tz", "--output-timezone", "UTC", &spec];
    if legacy { args.push("--include-legacy-fingerprint"); }
    let res = run(&args);
    if !split(allowed(&ns)) {
        cover("refused");
        check("any other namespace is refused", res == 1);
        check("nothing is written", eq(&read("out").unwrap(), b"before"));
        return;
    }
    cover("accepted");
    check("a namespace of allowed characters is accepted", res == 0);
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    let got = got.unwrap();
    check("every transaction is there", got.len() == 1 && got[0].posts.len() == 2);
    let old = |tag: &[u8]| { let h = cat(&[b"fp-", &ns, b"-"]); tag.len() == h.len() + 27 && starts(tag, &h) };
    let (me, peer) = (got[0].posts[0].c.fps(), got[0].posts[1].c.fps());
    check("the posting's own fingerprint, and the legacy one", me.len() == 1 + legacy as usize && peer.len() == legacy as usize);
    let (a, rest): (Vec<&B>, Vec<&B>) = me.iter().chain(peer.iter()).partition(|f| f.len() == ns.len() + 3 + 7 + 1 + 1 + 27);
    check("the fingerprint is well formed", a.len() == 1 && well_formed(a[0], b"ppcsv.1", &ns));
    for f in &rest { check("the legacy fingerprint is well formed", old(f)); }
    for k in 0..rest.len() { for j in 0..k { check("no two postings share one", !eq(rest[j], rest[k])); } }
}
