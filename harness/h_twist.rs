//! merge: a plain merge of each kind, with any one or two things about it out of the ordinary.
use super::h_merge::*;
use super::util::*;
use super::vf::*;

type Files = Vec<Vec<T>>;
fn post(account: &str, amount: &str, f: &str) -> P { P::new(account.as_bytes(), amount.as_bytes(), &[f.as_bytes()]) }
fn trn(head: &str, posts: Vec<P>) -> T { T::new(b"2020-01-01", head.as_bytes(), posts) }
fn one() -> T { trn("one", vec![post("A:x", "GBP1", "fp-a"), post("A:y", "GBP-1", "fp-b")]) }
const BASES: u8 = 12;
/// A journal and what is merged into it.
fn base(k: u8) -> Files {
    let xx = || trn("one", vec![post("A:x", "GBP1", "fp-a"), post("A:x", "GBP1", "fp-b")]);
    let two = |f: &str, g: &str| vec![trn("one", vec![post("A:x", "GBP1", f)]), trn("two", vec![post("A:x", "GBP1", g)])];
    let src = |a: &str, c: &str| vec![trn("src", vec![post("A:x", "GBP1", a), post("A:y", "GBP-1", c)])];
    match k {
        // by fingerprint; by what they say
        0 => vec![vec![one()], src("fp-a", "fp-b")],
        1 => vec![vec![one()], src("fp-c", "fp-d")],
        // either of two in one transaction; either of two transactions
        2 => vec![vec![xx()], vec![trn("src", vec![post("A:x", "GBP1", "fp-c")])]],
        3 => vec![two("fp-a", "fp-b"), src("fp-c", "fp-d")],
        // unknown; one of them unknown
        4 => vec![vec![one()], vec![trn("src", vec![post("A:z", "GBP7", "fp-c"), post("A:w", "GBP-7", "fp-d")])]],
        5 => vec![vec![one()], vec![trn("src", vec![post("A:x", "GBP1", "fp-c"), post("A:w", "GBP-7", "fp-d")])]],
        // two for the same posting, in one transaction and in two
        6 => vec![vec![one()], vec![trn("src", vec![post("A:x", "GBP1", "fp-c"), post("A:x", "GBP1", "fp-d")])]],
        7 => vec![vec![one()], two("fp-c", "fp-d")],
        // of different transactions
        8 => vec![vec![one(), trn("two", vec![post("A:w", "GBP2", "fp-e")])], vec![trn("src", vec![post("A:x", "GBP1", "fp-c"), post("A:w", "GBP2", "fp-d")])]],
        // two transactions of the source for two of the journal, and for one
        9 => vec![vec![one(), trn("two", vec![post("A:w", "GBP2", "fp-e")])], vec![trn("s1", vec![post("A:w", "GBP2", "fp-d")]), trn("s2", vec![post("A:x", "GBP1", "fp-c")])]],
        10 => vec![vec![one()], vec![trn("s1", vec![post("A:y", "GBP-1", "fp-d")]), trn("s2", vec![post("A:x", "GBP1", "fp-c")])]],
        // three files
        _ => vec![vec![one()], vec![trn("src", vec![post("A:x", "GBP1", "fp-c"), post("A:w", "GBP-7", "fp-d")])], vec![trn("third", vec![post("A:w", "GBP-7", "fp-e"), post("A:y", "GBP-1", "fp-f")])]],
    }
}
/// The same with accounts and amounts that are any.
fn any(n: u8) -> Files {
    let mut f: Files = vec![Vec::new(), Vec::new()];
    let mut k = 0;
    for file in 0..2 {
        let mut ps = Vec::new();
        for _ in 0..2 {
            if file == 1 && k == 3 && n < 2 { break; }
            let l = byte(&format!("account{k}"), Dom::of(b"xy"));
            let m = byte(&format!("amount{k}"), Dom::of(b"12"));
            ps.push(P::new(&[b'A', b':', l], &[b'G', b'B', b'P', m], &[&[b'f', b'p', b'-', b'a' + k]]));
            k += 1;
        }
        if file == 0 && n & 1 == 1 {
            let p = ps.pop().unwrap();
            f[file].push(trn("one", ps));
            f[file].push(trn("two", vec![p]));
        } else { f[file].push(trn(if file == 0 { "one" } else { "src" }, ps)); }
    }
    f
}
pub const POST: u8 = 24;
pub const TRN: u8 = 16;
const FILES: u8 = 11;
/// Something about a posting.
pub fn twist_post(k: u8, p: &mut P, n: usize) {
    let fresh = [b'f', b'p', b'-', b'm' + n as u8];
    match k {
        0 => p.status = b'!',
        1 => p.balance = b("GBP5"),
        2 => p.balance = b("0"),
        3 => p.balance = b("GBP6"),
        4 => p.amount = B::new(),
        5 => p.amount = cat(&[&p.amount, b" @ USD2"]),
        6 => p.amount = cat(&[&p.amount, b" {USD2}"]),
        7 => p.amount = cat(&[&p.amount, b".00"]),
        8 => p.amount = if p.amount[3] == b'-' { cat(&[b"GBP", &p.amount[4..]]) } else { cat(&[b"GBP-", &p.amount[3..]]) },
        9 => p.amount = b("GBP0"),
        10 => p.amount = cat(&[&p.amount[3..], b" GBP"]),
        11 => p.account = b("A:q"),
        12 => p.account = cat(&[b"(", &p.account, b")"]),
        13 => p.account = cat(&[b"[", &p.account, b"]"]),
        14 => p.c.add(b"unknown-account"),
        15 => p.c.add(&fresh),
        16 => p.c.add(b"FP-a"),
        17 => p.c.add(b"t"),
        18 => p.c.text.push(b("some text")),
        19 => p.c.set(b"k", &[b'v', b'0' + n as u8]),
        20 => p.c.set(b"k", b""),
        21 => p.c.add(b"candidate-fp-a"),
        22 => p.c.remove(b"fp-c"),
        _ => p.c.add(b"a-tag-that-is-longer-than-others"),
    }
}
/// Something about a transaction.
pub fn twist_trn(k: u8, t: &mut T, n: usize) {
    match k {
        0 => t.date = b("2020-01-02"),
        1 => t.date = b("2019-12-31"),
        2 => t.head = b("one"),
        3 => t.head = cat(&[b"* ", &t.head]),
        4 => t.head = cat(&[b"! (code) ", &t.head]),
        5 => t.head = cat(&[b"=2020-01-05 ", &t.head]),
        6 => t.c.set(b"k", b"v"),
        7 => { t.c.add(b"fp-a"); t.c.text.push(b("text")); }
        8 => t.c.set(b"source-file", b"src.csv"),
        9 => t.c.set(b"source-file", b"SRC.csv"),
        10 => t.c.set(b"source-file", b""),
        11 => { let mut p = post("A:n", "", "fp-r"); p.c.tags[0][3] += n as u8; t.posts.push(p); }
        12 => { let mut p = post("A:n", "GBP3", "fp-s"); p.c.tags[0][3] += n as u8; t.posts.insert(0, p); }
        13 => { let mut p = t.posts[0].clone(); p.c.tags = vec![vec![b'f', b'p', b'-', b'u' + n as u8]]; t.posts.push(p); }
        14 => { let p = t.posts.remove(0); t.posts.push(p); }
        _ => t.posts.truncate(1),
    }
}
/// Something about the files, and how they are merged.
fn twist_files(k: u8, f: &mut Files, how: &mut u8) {
    let new = |n: &str, f: &str| trn(n, vec![post("B:x", "GBP4", f)]);
    match k {
        0 => f[0].insert(0, new("before", "fp-1")),
        1 => f[1].insert(0, new("before", "fp-2")),
        2 => f[1].push(new("after", "fp-3")),
        3 => { let c = f[0].clone(); f.push(c) }
        4 => f.push(vec![trn("bad", vec![P::new(b"A:x", b"GBP1", &[b"no-fp"])])]),
        5 => f.push(vec![trn("last", vec![post("A:x", "GBP1", "fp-4")])]),
        6 => f.insert(1, Vec::new()),
        7 => *how |= 1,
        8 => *how |= 2,
        9 => *how |= 4,
        _ => *how |= 8,
    }
}
/// Any one of them, anywhere; `same`: on everything that has the same amount.
fn twist(l: &str, n: usize, f: &mut Files, how: &mut u8, classes: &[u8]) {
    let class = classes[choose(&format!("{l}.class"), classes.len() as u8) as usize];
    match class {
        0 | 3 => {
            let mut total = 0;
            for x in f.iter() { for t in x { total += t.posts.len(); } }
            let kind = choose(&format!("{l}.posting"), POST);
            let at = choose(&format!("{l}.which"), total as u8) as usize;
            let mut k = 0;
            let mut amount = B::new();
            for x in f.iter() { for t in x { for p in &t.posts { if k == at { amount = p.amount.clone(); } k += 1; } } }
            // (these read the amount they change)
            assume(kind < 5 || kind > 10 || amount.len() >= 4 && amount[0] == b'G' && find(&amount, b" ") == false);
            k = 0;
            for x in f.iter_mut() { for t in x.iter_mut() { for p in t.posts.iter_mut() {
                if k == at || class == 3 && split(eq(&p.amount, &amount)) {
                    if kind == 7 { assume(!find(&p.amount, b".")); }
                    if kind == 8 { assume(!eq(&p.amount, b"GBP0")); }
                    assume(kind != 22 || p.c.tags.len() == 1);
                    if kind == 22 { p.c.tags.clear(); p.c.tags.push(b("x")); } else { twist_post(kind, p, n * 4 + k); }
                    assume(!p.amount.is_empty() || p.balance.is_empty());
                }
                k += 1;
            } } }
        }
        1 => {
            let mut total = 0;
            for x in f.iter() { total += x.len(); }
            let kind = choose(&format!("{l}.transaction"), TRN);
            let at = choose(&format!("{l}.which"), total as u8) as usize;
            let mut k = 0;
            for x in f.iter_mut() { for t in x.iter_mut() { if k == at { assume(kind != 5 || t.head[0] != b'='); assume(kind != 3 && kind != 4 || t.head[0] != b'=' && t.head[0] != b'!' && t.head[0] != b'*'); assume(kind != 5 || t.head[0] != b'='); twist_trn(kind, t, n); } k += 1; } }
        }
        _ => twist_files(choose(&format!("{l}.files"), FILES), f, how),
    }
}
const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];
fn named(f: Files) -> Vec<(&'static str, Vec<T>)> { f.into_iter().enumerate().map(|(k, x)| (NAMES[k], x)).collect() }
fn twists(f: &mut Files, classes: &[&[u8]]) -> u8 {
    let mut how = 0;
    for (k, c) in classes.iter().enumerate() { twist(["first", "second", "third"][k], k, f, &mut how, c); }
    how
}
fn twisted(mut f: Files, classes: &[&[u8]]) {
    let how = twists(&mut f, classes);
    merge_as(&named(f), how);
}
const ALL: &[u8] = &[0, 1, 2, 3];
/// Two postings against two, of any accounts and amounts, and anything about one of them or both.
pub fn h_twist_any() { warm(); let n = choose("shape", 4); twisted(any(n), &[ALL]); }
/// A plain merge of each kind with two things about it.
pub fn h_twist_two() { warm(); let k = choose("base", BASES); twisted(base(k), &[ALL, ALL]); }
/// Two things about postings that belong together.
pub fn h_twist_fields() { warm(); let k = choose("base", 2); twisted(base(k), &[&[0], &[0]]); }
/// Something about a transaction or a file and something about a posting.
pub fn h_twist_mixed() { warm(); let k = choose("base", BASES); twisted(base(k), &[&[1, 2], &[0]]); }
/// Two things about transactions and files.
pub fn h_twist_rest() { warm(); let k = choose("base", BASES); twisted(base(k), &[&[1, 2], &[1, 2]]); }
/// The same merge under four orders of hash-table iteration.
fn ordered(mut f: Files, classes: &[&[u8]]) {
    let how = twists(&mut f, classes);
    assume(how & !4 == 0);
    for (k, x) in f.iter().enumerate() { write(NAMES[k], &render(x)); }
    same_under_orders(f.len(), how & 4 == 0);
}
pub fn same_under_orders(files: usize, unmerged: bool) {
    let mut first = None;
    for order in [0, 1, 3, 6] {
        hash_order(order);
        remove("o");
        remove("un");
        let mut m = vec!["merge", "-o", "o"];
        if unmerged { m.extend(["-u", "un"]); }
        m.extend(&NAMES[..files]);
        let r = run(&m);
        let now = (r, read("o"), read("un"));
        match &first {
            None => { if r == 0 { cover("merged"); } if now.2.is_some() { cover("unmerged"); } first = Some(now); }
            Some(f) => {
                check("the same outcome", f.0 == now.0);
                check("the same merged output", f.1 == now.1);
                check("the same unmerged output", f.2 == now.2);
            }
        }
    }
    hash_order(0);
}
pub fn h_order_any() { warm(); let n = choose("shape", 4); ordered(any(n), &[ALL]); }
pub fn h_order_rest() { warm(); let k = choose("base", BASES); ordered(base(k), &[&[1, 2], &[1, 2]]); }
pub fn h_order_two() { warm(); let k = choose("base", BASES); ordered(base(k), &[ALL, ALL]); }
/// The same merge, and its last input once more.
fn repeated(mut f: Files, classes: &[&[u8]]) {
    let how = twists(&mut f, classes);
    assume(how == 0);
    let which = choose("again", 2) as usize * f.len();
    let f = named(f);
    again(&f, if which == 0 { f.len() - 1 } else { which });
}
pub fn h_repeat_any() { warm(); let n = choose("shape", 4); repeated(any(n), &[ALL]); }
pub fn h_repeat_rest() { warm(); let k = choose("base", BASES); repeated(base(k), &[&[1, 2], &[1, 2]]); }
pub fn h_repeat_two() { warm(); let k = choose("base", BASES); repeated(base(k), &[ALL, ALL]); }
