//! Comments: what is read is what is written. Driven through generate-fingerprints, which parses
//! and formats every comment and leaves postings that have a fingerprint alone.
use super::util::*;
use super::vf::*;

fn warm() {
    reset();
    write("w", b"2020-01-01 foo ; k: v :x: y\n  A:B  GBP1.00 = GBP2.00\n  ; :fp-aaa: a :b:c: d\n  ; k: v\n");
    let r = run(&["generate-fingerprints", "w"]);
    check("warm", r == 0);
    reset();
}
fn plain(c: u8) -> bool { c != b':' && c != b' ' }
fn trim(mut l: &[u8]) -> &[u8] {
    let blank = |c: u8| c == b' ' || c == b'\t';
    while !l.is_empty() && blank(l[0]) { l = &l[1..]; }
    while !l.is_empty() && blank(l[l.len() - 1]) { l = &l[..l.len() - 1]; }
    l
}
/// `key:` or `key: value`.
fn key_value(l: &[u8]) -> Option<(B, B)> {
    let mut s = 0;
    while s < l.len() && l[s] == b' ' { s += 1; }
    let mut e = s;
    while e < l.len() && plain(l[e]) { e += 1; }
    if e == s || e == l.len() || l[e] != b':' { return None; }
    if e + 1 == l.len() { return Some((l[s..e].to_vec(), vec![])); }
    let mut v = e + 1;
    while v < l.len() && l[v] == b' ' { v += 1; }
    if v == e + 1 || v == l.len() { return None; }
    Some((l[s..e].to_vec(), trim(&l[v..]).to_vec()))
}
/// The documented reading of one line of a comment.
fn read_line(l: &[u8], c: &mut C) {
    if let Some((k, v)) = key_value(l) { c.set(&k, &v); return; }
    let mut text = 0;
    let mut p = 0;
    while p < l.len() {
        if l[p] == b':' {
            // :tag:tag:...
            let mut end = p;
            let mut q = p + 1;
            let mut tags = Vec::new();
            loop {
                let s = q;
                while q < l.len() && plain(l[q]) { q += 1; }
                if q == s || q == l.len() || l[q] != b':' { break; }
                tags.push(l[s..q].to_vec());
                end = q;
                q += 1;
            }
            if !tags.is_empty() {
                let t = trim(&l[text..p]);
                if !t.is_empty() { c.text.push(t.to_vec()); }
                for t in tags { c.add(&t); }
                p = end + 1;
                text = p;
                continue;
            }
        }
        p += 1;
    }
    let t = trim(&l[text..]);
    if !t.is_empty() { c.text.push(t.to_vec()); }
}
fn read_comment(lines: &[B]) -> C {
    let mut c = C::default();
    for l in lines { read_line(trim(l), &mut c); }
    c
}
/// Puts the lines into a journal, on the transaction or on the posting, and has them read and written.
fn round(lines: &[B], on_posting: bool, inline: bool) {
    let mut s = b("2020-01-01 x");
    let put = |s: &mut B| for (k, l) in lines.iter().enumerate() { s.extend(if k == 0 && inline { &b"  ; "[..] } else { b"\n  ; " }); s.extend(l); };
    if !on_posting { put(&mut s); }
    s.extend(b"\n  A:B  GBP1");
    if on_posting { put(&mut s); } 
    s.extend(b"\n");
    if !on_posting { s.extend(b"  ; :fp-z:\n"); }
    let want = read_comment(lines);
    let post = if on_posting { want.clone() } else { C::default().tag(b"fp-z") };
    let trn = if on_posting { C::default() } else { want.clone() };
    write("j", &s);
    let r = run(&["generate-fingerprints", "j"]);
    check("accepted", r == 0);
    if r != 0 { return; }
    let a = read("j").unwrap();
    let g = items(&a, true);
    check("the result is a journal", g.is_some());
    let g = g.unwrap();
    let t = match &g[..] { [I::Trn(t)] => t.clone(), _ => { check("one transaction is written", false); return; } };
    check("one posting is written", t.posts.len() == 1);
    let got = (read_comment(&t.c.text), read_comment(&t.posts[0].c.text));
    let mut odd = false;
    for t in want.text.iter().skip(1) { odd |= key_value(t).is_some(); }
    if odd {
        cover("text that looks like a key-value tag");
        let c = if on_posting { &got.1 } else { &got.0 };
        check("text that looks like a key-value tag stays text", same_kv(&c.kv, &want.kv));
        return;
    }
    if !want.kv.is_empty() { cover("a key-value tag"); }
    if want.tags.len() > 1 { cover("several tags"); }
    if want.text.len() > 1 { cover("several pieces of text"); }
    compare_comment("transaction", &got.0, &trn);
    compare_comment("posting", &got.1, &post);
    let r = run(&["generate-fingerprints", "j"]);
    check("the result can be read again", r == 0);
    check("writing again changes nothing", eq(&a, &read("j").unwrap()));
}
const MARK: Dom = Dom::of(b"ab: ");
fn line(l: &str, n: usize, d: Dom) -> B { bytes(l, n, d) }
pub fn h_comment_line() { warm(); let p = flag("on the posting"); let mut v = vec![line("text", 8, MARK)]; if p { v.insert(0, b(":fp-z:")); } round(&v, p, false); }
pub fn h_comment_line_deep() { warm(); let p = flag("on the posting"); let mut v = vec![line("text", 10, MARK)]; if p { v.push(b(":fp-z:")); } round(&v, p, flag("inline")); }
pub fn h_comment_lines() {
    warm();
    let p = flag("on the posting");
    let mut v = vec![cat(&[&line("first", 3, MARK), b"c"]), cat(&[b"c", &line("second", 4, Dom::of(b"c: "))])];
    if p { v.insert(choose("fingerprint", 3) as usize, b(":fp-z:")); }
    round(&v, p, false);
}
/// Other characters inside a tag, a key, a value and a text.
pub fn h_comment_chars() {
    warm();
    let x = Dom::range(33, 126).minus(b":");
    let d = bytes("char", 2, x);
    let v = match choose("place", 4) {
        0 => cat(&[b":a", &d, b"b:"]),
        1 => cat(&[b"a", &d, b"b: v"]),
        2 => cat(&[b"a: ", &d]),
        _ => cat(&[b"a ", &d]),
    };
    round(&[b(":fp-z:"), v], true, false);
}
/// Tags short and long, in any combination with text and values.
pub fn h_comment_tags() {
    warm();
    let mut v = vec![b(":fp-z:")];
    let tags: [&[u8]; 5] = [b"t", b"a-tag-of-12-c", b"a-tag-of-12c", b"a-long-long-long-tag", b"T"];
    let mut l = b(":");
    for (k, t) in tags.iter().enumerate() { if flag(&format!("tag{k}")) { l.extend(*t); l.push(b':'); } }
    if l.len() > 1 { v.insert(choose("order", 2) as usize, l); }
    let k = choose("text", 3);
    for i in 0..k { let mut t = bytes(&format!("text{i}"), 2, Dom::range(b'a', b'd')); if i == 1 { t.extend(b" x :u: y"); } v.push(t); }
    let k = choose("values", 3);
    for i in 0..k { let t = bytes(&format!("key{i}"), 1, Dom::range(b'a', b'c')); v.push(cat(&[&t, b": ", &bytes(&format!("value{i}"), 1, Dom::range(b'a', b'c'))])); }
    round(&v, true, flag("inline"));
}
/// Text behind tags, which may look like a key-value tag, with short and long tags or both.
pub fn h_comment_behind() {
    warm();
    let p = flag("on the posting");
    let tags: [&[u8]; 4] = [b"t", b"twelve-chars", b"thirteen-char", b"another-long-tag"];
    let mut l = b(":");
    for (k, t) in tags.iter().enumerate() { if flag(&format!("tag{k}")) { l.extend(*t); l.push(b':'); } }
    if l.len() == 1 { l.clear(); }
    l.extend(b" ");
    l.extend(&line("text", 4, MARK));
    let mut v = vec![l];
    if flag("a value") { v.push(b("a: w")); }
    if flag("more text") { v.push(b("more")); }
    if p { v.insert(choose("fingerprint", 2) as usize, b(":fp-z:")); }
    round(&v, p, false);
}
/// Values may be empty, keys may look like tags.
pub fn h_comment_values() {
    warm();
    let mut v = vec![b(":fp-z:")];
    for i in 0..3 {
        if !flag(&format!("line{i}")) { continue; }
        let k = bytes(&format!("key{i}"), 1, Dom::of(b"abA"));
        v.push(match choose(&format!("kind{i}"), 5) {
            0 => cat(&[&k, b":"]),
            1 => cat(&[&k, b": ", &bytes(&format!("value{i}"), 1, Dom::of(b"ab:"))]),
            2 => cat(&[&k, b": :x:"]),
            3 => cat(&[&k, b":  v w "]),
            _ => cat(&[b":", &k, b":"]),
        });
    }
    round(&v, true, flag("inline"));
}
