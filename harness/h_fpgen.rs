//! generate-fingerprints.
use super::util::*;
use super::vf::*;

pub fn warm() {
    reset();
    write("w", b"2020-01-01 foo\n  A:B  GBP1.00 = GBP2.00\n  ; :x:\n  ; k: v\n  C:D  GBP1\n  ; :fp-aaa:\n");
    let r = run(&["generate-fingerprints", "w"]);
    check("warm", r == 0);
    reset();
}
fn is_fp(t: &[u8]) -> bool { starts(t, b"fp-") }
fn well_formed(t: &[u8]) -> bool {
    let mut r = t.len() == 33 && starts(t, b"fp-uuidb64-");
    if r { for c in &t[11..] { r &= c.is_ascii_alphanumeric() | (*c == b'-') | (*c == b'_'); } }
    r
}
/// What generate-fingerprints must have done to `want`, given what is in the file now.
pub fn verify(what: &str, now: &[u8], want: &[T], fresh: &mut Vec<B>) {
    let got = parse(now);
    check("the result is a journal", got.is_some());
    let mut got = got.unwrap();
    check("the number of transactions", got.len() == want.len());
    for (g, w) in got.iter_mut().zip(want) {
        check("the number of postings", g.posts.len() == w.posts.len());
        for (p, q) in g.posts.iter_mut().zip(&w.posts) {
            let mut has_one = false;
            for t in &q.c.tags { has_one |= is_fp(t); }
            if split(has_one) { cover("already has one"); continue; }
            cover("needs one");
            let mut new = Vec::new();
            let mut rest = Vec::new();
            for t in p.c.tags.drain(..) { if split(is_fp(&t)) { new.push(t) } else { rest.push(t) } }
            check("exactly one fingerprint is added", new.len() == 1);
            if new.len() != 1 { return; }
            check("the fingerprint is well formed", well_formed(&new[0]));
            check("the fingerprint is unique", !has(fresh, &new[0]));
            for t in want { for p in &t.posts { check("the fingerprint is new", !has(&p.c.tags, &new[0])); } }
            fresh.push(new[0].clone());
            p.c.tags = rest;
        }
    }
    compare(what, &got, want);
}
/// Postings with and without fingerprints, over one or two files.
fn fpgen(trns: u8, posts: u8) {
    warm();
    let mut want = Vec::new();
    for i in 0..trns {
        let mut t = T::new(b"2020-01-01", &cat(&[b"d", &bytes(&format!("head{i}"), 1, Dom::range(b'a', b'z'))]), vec![]);
        // the tags of the transaction are none of the program's business
        if flag(&format!("tag{i}")) { t.c.tags.push(b("fp-trn")); t.c.text.push(b("note")); }
        for k in 0..1 + choose(&format!("postings{i}"), posts) {
            let l = format!("{i}{k}");
            let mut p = P::new(&cat(&[b"A:", &bytes(&format!("account{l}"), 1, Dom::range(b'a', b'z'))]), b"GBP1.50", &[]);
            match choose(&format!("tags{l}"), 6) {
                0 => {}
                1 => p.c.tags.push(bytes(&format!("tag{l}"), 4, Dom::of(b"fp-x"))),
                2 => { p.c.tags.push(b("abc")); p.c.tags.push(b("fp-old")); p.balance = b("GBP2"); }
                3 => { p.c.tags.push(b("candidate-fp-old")); p.c.kv.push((b("fp-k"), b("fp-v"))); p.c.text.push(b("fp-t")); p.status = b'!'; }
                4 => { p.c.tags.push(b("fp-uuidb64-AAAAAAAAAAAAAAAAAAAAAA")); p.c.tags.push(b("fp-two")); }
                _ => { p.c.tags.push(b("zz-a-tag-that-is-long")); p.c.text.push(b("text")); p.amount = b(""); }
            }
            t.posts.push(p);
        }
        want.push(t);
    }
    let two = trns > 1 && flag("two files");
    let parts: Vec<Vec<T>> = if two { vec![want[..1].to_vec(), want[1..].to_vec()] } else { vec![want] };
    for (k, p) in parts.iter().enumerate() { write(&format!("j{k}"), &render(p)); }
    let r = if two { run(&["generate-fingerprints", "j0", "j1"]) } else { run(&["generate-fingerprints", "j0"]) };
    check("accepted", r == 0);
    let mut fresh = Vec::new();
    let mut first = Vec::new();
    for (k, p) in parts.iter().enumerate() {
        let now = read(&format!("j{k}")).unwrap();
        verify("unchanged otherwise", &now, p, &mut fresh);
        first.push(now);
    }
    check("no other file is written", file_count() == parts.len());
    let r = if two { run(&["generate-fingerprints", "j1", "j0"]) } else { run(&["generate-fingerprints", "j0"]) };
    check("accepted again", r == 0);
    for (k, f) in first.iter().enumerate() { check("running it again changes nothing", eq(f, &read(&format!("j{k}")).unwrap())); }
}
pub fn h_fpgen() { fpgen(1, 3); }
pub fn h_fpgen_two() { fpgen(2, 1); }
pub fn h_fpgen_deep() { fpgen(2, 2); }
/// From standard input to standard output; everything a transaction and a posting can have is kept.
pub fn h_fpgen_fields() {
    warm();
    let d = |l: &str| bytes(l, 1, Dom::range(b'a', b'z'));
    let heads: [&[u8]; 5] = [b"", b"* ", b"! ", b"(12) ", b"=2020-02-03 * (c) "];
    let h = choose("head", 5) as usize;
    let mut t = T::new(b"2020-01-01", &cat(&[heads[h], &d("description")]), vec![]);
    let amounts: [&[u8]; 5] = [b"", b"GBP-1.00", b"1.5 EUR", b"EUR1 {GBP2} @ GBP3", b"EUR1 @@ GBP3.10"];
    let balances: [&[u8]; 3] = [b"", b"0", b"GBP5"];
    let accounts: [&[u8]; 3] = [b"A:", b"(A:", b"[A:"];
    let a = choose("account", 3) as usize;
    let mut p = P::new(&cat(&[accounts[a], &d("account name"), [&b""[..], b")", b"]"][a]]), amounts[choose("amount", 5) as usize], &[]);
    p.balance = balances[choose("balance", 3) as usize].to_vec();
    if flag("pending") { p.status = b'!'; }
    if flag("comment") { p.c.tags.push(d("tag")); p.c.kv.push((b("k"), d("value"))); p.c.text.push(d("text")); }
    t.posts.push(p);
    t.posts.push(P::new(b"O:P", b"", &[b"fp-1"]));
    let want = vec![t];
    let src = render(&want);
    stdin(&src);
    let r = run(&["generate-fingerprints", "-"]);
    check("accepted", r == 0);
    let so = stdout();
    verify("unchanged otherwise", &so, &want, &mut Vec::new());
    check("no file is written", file_count() == 0);
}
