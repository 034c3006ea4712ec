//! apply-rules: an interpreter of rule tables, and tables of all kinds.
use super::util::*;
use super::vf::*;

#[derive(Clone)]
enum S { Eq(B), Contains(B), Lower(Box<S>), Matches(u8) }
/// Regular expressions; what each of them matches is written down in `matched`.
const RX: [&str; 5] = ["^a", "b$", "a.?b", "(?i)A", ""];
#[derive(Clone)]
enum Pr { True, Not(Box<Pr>), All(Vec<Pr>), Any(Vec<Pr>), Account(S), Desc(S), Flag(S), HasFlag(B), HasValue(B), Value(B, S) }
#[derive(Clone)]
enum A { Flag(B), Value(B, B), TrnFlag(B), TrnValue(B, B), All(Vec<A>), Error, Noop, Jump(B), Account(B), NoFlag(B), NoValue(B), NoTrnFlag(B), NoTrnValue(B), Desc(u8, B) }
#[derive(Clone)]
struct R(Pr, A, bool);
type Chain = (B, Vec<R>);

/// Where the regular expression matches first.
fn matched(k: u8, s: &[u8]) -> Option<(usize, usize)> {
    match k {
        0 => if !s.is_empty() && split(s[0] == b'a') { Some((0, 1)) } else { None },
        1 => if !s.is_empty() && split(s[s.len() - 1] == b'b') { Some((s.len() - 1, s.len())) } else { None },
        2 => {
            for i in 0..s.len() {
                if !split(s[i] == b'a') { continue; }
                // greedy: with a character in between, if that is possible
                if i + 2 < s.len() && split(s[i + 2] == b'b') { return Some((i, i + 3)); }
                if i + 1 < s.len() && split(s[i + 1] == b'b') { return Some((i, i + 2)); }
            }
            None
        }
        3 => { for i in 0..s.len() { if split((s[i] == b'a') | (s[i] == b'A')) { return Some((i, i + 1)); } } None }
        _ => Some((0, 0)),
    }
}
impl S {
    fn ron(&self) -> B {
        match self {
            S::Eq(x) => cat(&[b"Eq(\"", x, b"\")"]), S::Contains(x) => cat(&[b"Contains(\"", x, b"\")"]),
            S::Lower(m) => cat(&[b"AsLower(", &m.ron(), b")"]), S::Matches(k) => cat(&[b"Matches(\"", RX[*k as usize].as_bytes(), b"\")"]),
        }
    }
    fn is(&self, s: &[u8]) -> bool {
        match self {
            S::Eq(x) => split(eq(x, s)),
            S::Contains(x) => { let mut r = x.is_empty(); if !r && x.len() <= s.len() { for k in 0..=s.len() - x.len() { r |= eq(&s[k..k + x.len()], x); } } split(r) }
            S::Lower(m) => { let l: B = s.iter().map(|c| if split(c.is_ascii_uppercase()) { c + 32 } else { *c }).collect(); m.is(&l) }
            S::Matches(k) => matched(*k, s).is_some(),
        }
    }
}
fn list(v: Vec<B>) -> B { let mut r = b("["); for (k, x) in v.iter().enumerate() { if k > 0 { r.extend_from_slice(b", "); } r.extend_from_slice(x); } r.push(b']'); r }
impl Pr {
    fn ron(&self) -> B {
        match self {
            Pr::True => b("True"), Pr::Not(p) => cat(&[b"Not(", &p.ron(), b")"]),
            Pr::All(v) => cat(&[b"All(", &list(v.iter().map(|p| p.ron()).collect()), b")"]), Pr::Any(v) => cat(&[b"Any(", &list(v.iter().map(|p| p.ron()).collect()), b")"]),
            Pr::Account(m) => cat(&[b"Account(", &m.ron(), b")"]), Pr::Desc(m) => cat(&[b"TransactionDescription(", &m.ron(), b")"]), Pr::Flag(m) => cat(&[b"PostingFlagTag(", &m.ron(), b")"]),
            Pr::HasFlag(x) => cat(&[b"PostingHasFlagTag(\"", x, b"\")"]), Pr::HasValue(x) => cat(&[b"PostingHasValueTag(\"", x, b"\")"]),
            Pr::Value(k, m) => cat(&[b"PostingValueTag(\"", k, b"\", ", &m.ron(), b")"]),
        }
    }
    fn is(&self, t: &T, p: &P) -> bool {
        match self {
            Pr::True => true, Pr::Not(x) => !x.is(t, p), Pr::All(v) => v.iter().all(|x| x.is(t, p)), Pr::Any(v) => v.iter().any(|x| x.is(t, p)),
            Pr::Account(m) => m.is(&p.account), Pr::Desc(m) => m.is(&t.head), Pr::Flag(m) => p.c.tags.iter().any(|x| m.is(x)),
            Pr::HasFlag(x) => split(p.c.has(x)), Pr::HasValue(x) => p.c.kv.iter().any(|(k, _)| split(eq(k, x))),
            Pr::Value(x, m) => match p.c.kv.iter().find(|(k, _)| split(eq(k, x))) { Some((_, v)) => m.is(v), None => false },
        }
    }
}
fn unset(c: &mut C, x: &[u8]) { c.kv.retain(|(k, _)| !split(eq(k, x))); }
fn unflag(c: &mut C, x: &[u8]) { c.tags.retain(|k| !split(eq(k, x))); }
fn put(c: &mut C, x: &[u8], v: &[u8]) { unset(c, x); c.kv.push((x.to_vec(), v.to_vec())); }
impl A {
    fn ron(&self) -> B {
        let one = |n: &str, x: &[u8]| cat(&[n.as_bytes(), b"(\"", x, b"\")"]);
        let two = |n: &str, x: &[u8], y: &[u8]| cat(&[n.as_bytes(), b"(\"", x, b"\", \"", y, b"\")"]);
        match self {
            A::Flag(x) => one("AddPostingFlagTag", x), A::Value(x, y) => two("AddPostingValueTag", x, y), A::TrnFlag(x) => one("AddTransactionFlagTag", x), A::TrnValue(x, y) => two("AddTransactionValueTag", x, y),
            A::All(v) => cat(&[b"All(", &list(v.iter().map(|a| a.ron()).collect()), b")"]), A::Error => one("Error", b"message"), A::Noop => b("Noop"), A::Jump(x) => one("JumpChain", x), A::Account(x) => one("SetAccount", x),
            A::NoFlag(x) => one("RemovePostingFlagTag", x), A::NoValue(x) => one("RemovePostingValueTag", x), A::NoTrnFlag(x) => one("RemoveTransactionFlagTag", x), A::NoTrnValue(x) => one("RemoveTransactionValueTag", x),
            A::Desc(k, x) => cat(&[b"ReplaceTransactionDescription((regex: \"", RX[*k as usize].as_bytes(), b"\", replacement: \"", x, b"\"))"]),
        }
    }
    /// False: the application fails.
    fn run(&self, all: &[Chain], t: &mut T, p: &mut P, depth: usize) -> bool {
        match self {
            A::Flag(x) => p.c.add(x), A::Value(x, y) => put(&mut p.c, x, y), A::TrnFlag(x) => t.c.add(x), A::TrnValue(x, y) => put(&mut t.c, x, y),
            A::All(v) => for a in v { if !a.run(all, t, p, depth) { return false; } },
            A::Error => return false, A::Noop => {}
            // jumps that never come back are an error; what the others do does not depend on it
            A::Jump(x) => { if depth == 50 { return false; } return apply(all, x, t, p, depth + 1); }
            A::Account(x) => p.account = x.clone(),
            A::NoFlag(x) => unflag(&mut p.c, x), A::NoValue(x) => unset(&mut p.c, x), A::NoTrnFlag(x) => unflag(&mut t.c, x), A::NoTrnValue(x) => unset(&mut t.c, x),
            A::Desc(k, x) => if let Some((i, j)) = matched(*k, &t.head) {
                // $0 is what was matched
                let mut r = Vec::new();
                let mut q = 0;
                while q < x.len() { if x[q] == b'$' && q + 1 < x.len() && x[q + 1] == b'0' { r.extend_from_slice(&t.head[i..j]); q += 2; } else { r.push(x[q]); q += 1; } }
                t.head = cat(&[&t.head[..i], &r, &t.head[j..]]);
            },
        }
        true
    }
    fn jumps(&self, to: &mut Vec<B>) { match self { A::Jump(x) => to.push(x.clone()), A::All(v) => for a in v { a.jumps(to) }, _ => {} } }
}
fn apply(all: &[Chain], name: &[u8], t: &mut T, p: &mut P, depth: usize) -> bool {
    let rules = match all.iter().find(|c| split(eq(&c.0, name))) { Some(c) => &c.1, None => return false };
    for R(pred, action, stop) in rules {
        if !pred.is(t, p) { continue; }
        if !action.run(all, t, p, depth) { return false; }
        if *stop { break; }
    }
    true
}
/// The transactions the table makes of `ts`; None: it reports an error.
fn interpret(all: &[Chain], ts: &[T]) -> Option<Vec<T>> {
    let mut v = ts.to_vec();
    for t in &mut v {
        for k in 0..t.posts.len() {
            let mut p = t.posts[k].clone();
            let ok = apply(all, b"start", t, &mut p, 0);
            t.posts[k] = p;
            if !ok { return None; }
        }
    }
    Some(v)
}
fn chain_ron(c: &Chain) -> B {
    // the fields of a rule may stand in any order
    let rules = c.1.iter().map(|R(p, a, s)| cat(&[b"Rule(predicate: ", &p.ron(), b", action: ", &a.ron(), b", result: ", if *s { b"Return" } else { b"Continue" }, b")"])).collect();
    cat(&[b"Chain(\"", &c.0, b"\", ", &list(rules), b")"])
}
fn table_ron(all: &[Chain]) -> B { list(all.iter().map(chain_ron).collect()) }

fn warm() {
    reset();
    write("in", b"2020-01-01 foo  ; :x:\n  A:B  GBP1.00 = GBP2.00\n  ; :x:\n  ; k: v\n  C:D  GBP1\n");
    write("w", b"[Chain(\"start\", [Rule(predicate: All([Not(Account(Eq(\"x\"))), Any([TransactionDescription(AsLower(Contains(\"f\"))), PostingValueTag(\"k\", Matches(\"^a\"))])]), action: All([SetAccount(\"A\"), AddPostingFlagTag(\"b\"), ReplaceTransactionDescription((regex: \"b$\", replacement: \"x\"))]), result: Continue)])]");
    check("warm", run(&["apply-rules", "-o", "out", "in", "table", "w"]) == 0);
    for k in 0..RX.len() { matched(k as u8, b"x"); }
    reset();
}
/// Applies the table to `ts` and compares with the interpreter.
fn applied(all: &[Chain], ts: &[T]) {
    write("rules.ron", &table_ron(all));
    write("in", &render(ts));
    write("out", b"before");
    let r = run(&["apply-rules", "-o", "out", "in", "table", "rules.ron"]);
    match interpret(all, ts) {
        None => { cover("an error is reported"); check("an error is reported", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); }
        Some(w) => {
            cover("applied");
            check("the table is applied", r == 0);
            let got = parse(&read("out").unwrap());
            check("the output is a journal", got.is_some());
            compare("rules", &got.unwrap(), &w);
        }
    }
    check("no other file is written", file_count() == 3);
    check("the rules stay", eq(&read("rules.ron").unwrap(), &table_ron(all)));
}
fn abc(label: &str) -> B { bytes(label, 1, Dom::range(b'a', b'c')) }
/// A transaction of two postings with tags at all places.
fn sample() -> T {
    let mut p = P::new(b"Acc:one", b"GBP1.50", &[]);
    p.c.tags = vec![b("a"), b("b")];
    p.c.kv = vec![(b("a"), b("va")), (b("b"), b("vb"))];
    p.c.text = vec![b("text")];
    p.balance = b("GBP7");
    let mut q = P::new(b"Acc:two", b"GBP-1.50", &[b"c"]);
    q.status = b'!';
    let mut t = T::new(b"2020-01-01", b"desc", vec![p, q]);
    t.c.tags = vec![b("b"), b("c")];
    t.c.kv = vec![(b("b"), b("tb")), (b("c"), b("tc"))];
    t.c.text = vec![b("note")];
    t
}
fn action(label: &str) -> A {
    match choose(&format!("action {label}"), 13) {
        0 => A::Flag(abc(&format!("tag {label}"))), 1 => A::Value(abc(&format!("key {label}")), bytes(&format!("value {label}"), 2, ALPHA)),
        2 => A::TrnFlag(abc(&format!("tag {label}"))), 3 => A::TrnValue(abc(&format!("key {label}")), bytes(&format!("value {label}"), 2, ALPHA)),
        4 => A::Noop, 5 => A::Error,
        6 => A::Account(cat(&[b"New:", &bytes(&format!("account {label}"), 1, ALPHA)])),
        7 => A::NoFlag(abc(&format!("tag {label}"))), 8 => A::NoValue(abc(&format!("key {label}"))), 9 => A::NoTrnFlag(abc(&format!("tag {label}"))), 10 => A::NoTrnValue(abc(&format!("key {label}"))),
        11 => A::Desc(choose(&format!("regex {label}"), 5), [&b"X"[..], b"", b"<$0>"][choose(&format!("replacement {label}"), 3) as usize].to_vec()),
        _ => A::All(vec![A::Flag(abc(&format!("tag {label}"))), A::NoValue(abc(&format!("key {label}")))]),
    }
}
/// Each action changes the field it names and no other.
pub fn h_rules_actions() {
    warm();
    let mut t = sample();
    t.head = cat(&[b"x", &bytes("description", 3, Dom::of(b"abA"))]);
    applied(&[(b("start"), vec![R(Pr::True, action("1"), false)])], &[t]);
}
/// Two actions, one after the other: in two rules, or in one.
pub fn h_rules_sequence() {
    warm();
    let (x, y) = (action("1"), action("2"));
    let rules = match choose("how", 3) { 0 => vec![R(Pr::True, A::All(vec![x, y]), false)], 1 => vec![R(Pr::True, x, false), R(Pr::True, y, true)], _ => vec![R(Pr::True, x, true), R(Pr::True, y, false)] };
    let mut t = sample();
    t.head = b("xab");
    applied(&[(b("start"), rules)], &[t]);
}
fn text_match(label: &str, letters: Dom) -> S {
    match choose(&format!("match {label}"), 5) {
        0 => S::Eq(bytes(&format!("wanted {label}"), 3, letters)), 1 => S::Contains(bytes(&format!("wanted {label}"), 2, letters)),
        2 => S::Matches(choose(&format!("regex {label}"), 5)), 3 => S::Lower(Box::new(S::Eq(bytes(&format!("wanted {label}"), 3, letters)))),
        _ => S::Lower(Box::new(if flag(&format!("regex too {label}")) { S::Matches(choose(&format!("regex {label}"), 5)) } else { S::Contains(bytes(&format!("wanted {label}"), 1, letters)) })),
    }
}
fn predicate(label: &str) -> Pr {
    let l = Dom::of(b"abAB");
    match choose(&format!("predicate {label}"), 7) {
        0 => Pr::True, 1 => Pr::Account(text_match(label, l)), 2 => Pr::Desc(text_match(label, l)), 3 => Pr::Flag(text_match(label, l)),
        4 => Pr::HasFlag(bytes(&format!("wanted {label}"), 3, l)), 5 => Pr::HasValue(bytes(&format!("wanted {label}"), 3, l)), _ => Pr::Value(bytes(&format!("key {label}"), 1, Dom::of(b"ab")), text_match(label, l)),
    }
}
fn mixed() -> T {
    let l = Dom::of(b"abAB");
    let mut p = P::new(&bytes("account", 3, l), b"GBP1.50", &[]);
    p.c.tags = vec![bytes("tag", 3, l), b("other")];
    p.c.kv = vec![(b("b"), bytes("value", 3, l))];
    T::new(b"2020-01-01", &bytes("description", 3, l), vec![p])
}
/// Each predicate, on symbolic fields.
pub fn h_rules_predicates() {
    warm();
    let p = predicate("1");
    let p = if flag("not") { Pr::Not(Box::new(p)) } else { p };
    applied(&[(b("start"), vec![R(p, A::Account(b("Hit")), false)])], &[mixed()]);
}
/// Predicates of predicates.
pub fn h_rules_trees() {
    warm();
    let leaf = |k: &str| match choose(&format!("leaf {k}"), 4) { 0 => Pr::Account(S::Eq(bytes(&format!("wanted {k}"), 1, Dom::of(b"ab")))), 1 => Pr::Desc(S::Contains(bytes(&format!("wanted {k}"), 1, Dom::of(b"ab")))), 2 => Pr::True, _ => Pr::Any(vec![]) };
    let group = |k: &str, v: Vec<Pr>| match choose(&format!("group {k}"), 4) { 0 => Pr::All(v), 1 => Pr::Any(v), 2 => Pr::Not(Box::new(Pr::All(v))), _ => Pr::Not(Box::new(Pr::Any(v))) };
    let p = group("1", vec![leaf("1"), group("2", vec![leaf("2"), leaf("3")])]);
    let t = T::new(b"2020-01-01", &bytes("description", 1, Dom::of(b"ab")), vec![P::new(&bytes("account", 1, Dom::of(b"ab")), b"GBP1.50", &[])]);
    applied(&[(b("start"), vec![R(p, A::Flag(b("hit")), false)])], &[t]);
}
/// Every action leaves its mark, rules depend on marks left before: order, jumps and results.
fn chains(n: usize, rules: usize) {
    warm();
    let names: [&[u8]; 3] = [b"start", b"x", b"y"];
    let all: Vec<Chain> = (0..n).map(|c| {
        let v = (0..rules).map(|k| {
            let l = format!("{c}{k}");
            // marks are tags; a rule may ask for one that another rule of the table leaves
            let more = k > 0; // the later rules of a chain are simpler
            let p = match choose(&format!("when {l}"), if more { 2 } else { 3 }) { 0 => Pr::True, 1 => Pr::HasFlag(cat(&[b"m0", &bytes(&format!("mark {l}"), 1, Dom::of(b"01"))])), _ => Pr::Account(S::Eq(b("A:a"))) };
            let mark = A::Flag(format!("m{l}").into_bytes());
            let a = match choose(&format!("what {l}"), if more { 2 } else { 4 }) { 0 => mark, 1 if more => A::Jump(names[1 - c].to_vec()), 1 => A::Jump(names[choose(&format!("to {l}"), n as u8) as usize].to_vec()), 2 => A::All(vec![mark, A::Jump(names[choose(&format!("to {l}"), n as u8) as usize].to_vec()), A::TrnFlag(format!("n{l}").into_bytes())]), _ => A::Account(b("A:b")) };
            R(p, a, !more && flag(&format!("return {l}")))
        }).collect();
        (names[c].to_vec(), v)
    }).collect();
    let t = T::new(b"2020-01-01", b"d", vec![P::new(&cat(&[b"A:", &bytes("account", 1, Dom::of(b"ab"))]), b"GBP1.50", &[])]);
    applied(&all, &[t]);
}
pub fn h_rules_chains() { chains(2, 1) }
pub fn h_rules_chains_deep() { chains(2, 2) }
/// Jumps to another chain and back, with everything around it concrete enough for three chains.
pub fn h_rules_return() {
    warm();
    let on = |k: &str| Pr::Account(S::Eq(cat(&[b"A:", &bytes(&format!("account {k}"), 1, Dom::of(b"abc"))])));
    let mark = |k: &str| A::Flag(b(k));
    let all = [
        (b("start"), vec![R(on("1"), A::Jump(b("x")), flag("return 1")), R(Pr::True, mark("s2"), flag("return 2")), R(Pr::True, A::Jump(b("y")), flag("return 3")), R(Pr::True, mark("s4"), false)]),
        (b("x"), vec![R(Pr::True, mark("x1"), flag("return x1")), R(on("x"), A::All(vec![A::Jump(b("y")), mark("x2")]), flag("return x2")), R(Pr::True, mark("x3"), false)]),
        (b("y"), vec![R(on("y"), mark("y1"), true), R(Pr::True, A::Account(b("A:b")), false)]),
    ];
    let t = T::new(b"2020-01-01", b"d", vec![P::new(&cat(&[b"A:", &bytes("account", 1, Dom::of(b"abc"))]), b"GBP1.50", &[])]);
    applied(&all, &[t]);
}
/// Postings are handled one after the other; what one does to the transaction the next one sees.
pub fn h_rules_postings() {
    warm();
    let rules = vec![
        R(Pr::Account(S::Eq(cat(&[b"A:", &bytes("wanted", 1, Dom::of(b"ab"))]))), A::All(vec![A::Desc(4, b("z")), A::TrnFlag(b("seen")), A::Flag(b("hit"))]), flag("return")),
        R(Pr::Desc(S::Contains(b("z"))), A::Account(b("A:z")), false),
        R(Pr::Desc(S::Contains(b("zz"))), A::TrnValue(b("k"), b("twice")), false),
    ];
    let n = 1 + choose("transactions", 2);
    let ts: Vec<T> = (0..n).map(|i| T::new(b"2020-01-01", b"d", (0..1 + choose(&format!("postings {i}"), 3)).map(|k| P::new(&cat(&[b"A:", &bytes(&format!("account {i}{k}"), 1, Dom::of(b"ab"))]), b"GBP1.50", &[])).collect())).collect();
    applied(&[(b("start"), rules)], &ts);
}
/// Texts in a table.
pub fn h_rules_text() {
    warm();
    let c = bytes("text", 2, PRINT);
    let mut esc = Vec::new();
    for x in &c { if split((*x == b'"') | (*x == b'\\')) { esc.push(b'\\'); } esc.push(*x); }
    let t = cat(&[b"a", &c, b"b"]);
    write("in", b"2020-01-01 d\n  A:a  GBP1\n");
    // a comment, and the fields in another order
    write("rules.ron", &cat(&[b"// rules\n[\n  Chain(\"start\", [\n    Rule(result: Return, action: AddPostingValueTag(\"k\", \"", &esc, b"z\"), predicate: Not(Account(Eq(\"", &esc, b"\"))),),\n  ]),\n]\n"]));
    check("accepted", run(&["apply-rules", "-o", "out", "in", "table", "rules.ron"]) == 0);
    let _ = t;
    let mut w = T::new(b"2020-01-01", b"d", vec![P::new(b"A:a", b"GBP1", &[])]);
    w.posts[0].c.kv = vec![(b("k"), { let mut v = c.clone(); v.push(b'z'); while !v.is_empty() && split(v[0] == b' ') { v.remove(0); } v })];
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    compare("rules", &got.unwrap(), &[w]);
}
/// Which tables are accepted.
fn accepted(files: &[Vec<Chain>], reached: &[bool]) -> bool {
    let mut names: Vec<B> = Vec::new();
    let mut to: Vec<B> = Vec::new();
    for (f, r) in files.iter().zip(reached) {
        if !r { continue; }
        for (n, rules) in f { if split(has(&names, n)) { cover("a chain twice"); return false; } names.push(n.clone()); for r in rules { r.1.jumps(&mut to); } }
    }
    if !split(has(&names, b"start")) { cover("no start"); return false; }
    for t in &to { if !split(has(&names, t)) { cover("a jump to nowhere"); return false; } }
    true
}
/// One to three chains, over one or two files: accepted if they fit together, and then safe.
pub fn h_rules_load() {
    warm();
    let name = |k: &str| match choose(&format!("name {k}"), 3) { 0 => b("start"), _ => cat(&[b"ch", &bytes(&format!("letter {k}"), 1, Dom::of(b"ab"))]) };
    let chain = |k: &str| -> Chain {
        let to = name(&format!("{k} jump"));
        let a = match choose(&format!("action {k}"), 4) { 0 => A::Flag(b(k)), 1 => A::Jump(to), 2 => A::All(vec![A::Noop, A::Jump(to)]), _ => A::All(vec![A::All(vec![A::Jump(to)])]) };
        // rules that are never reached are checked all the same
        (name(k), vec![R(if flag(&format!("never {k}")) { Pr::Any(vec![]) } else { Pr::Account(S::Eq(b("A:a"))) }, a, false)])
    };
    let mut files = vec![vec![chain("1")], vec![chain("2")]];
    let include = choose("include", 3);
    let reached = [true, include != 0];
    let mut v = b("[");
    if include == 1 { v.extend_from_slice(b"Include(\"sub/other.ron\"), "); }
    v.extend_from_slice(&chain_ron(&files[0][0]));
    if include == 2 { v.extend_from_slice(b", Include(\"sub/other.ron\")"); }
    v.push(b']');
    mkdir("dir");
    mkdir("dir/sub");
    write("dir/rules.ron", &v);
    write("dir/sub/other.ron", &table_ron(&files[1]));
    let ts = [T::new(b"2020-01-01", b"d", vec![P::new(b"A:a", b"GBP1", &[])])];
    write("in", &render(&ts));
    write("out", b"before");
    let r = run(&["apply-rules", "-o", "out", "in", "table", "dir/rules.ron"]);
    check("accepted or refused", r == 0 || r == 1);
    if !accepted(&files, &reached) { check("a table that does not fit together is refused", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); return; }
    let all: Vec<Chain> = if reached[1] { let mut f = files.remove(0); f.append(&mut files.remove(0)); f } else { files.remove(0) };
    match interpret(&all, &ts) {
        None => { cover("jumps without end"); check("jumps without end are reported", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); }
        Some(w) => { cover("accepted"); check("a table that fits together is applied", r == 0); compare("rules", &parse(&read("out").unwrap()).unwrap(), &w); }
    }
}
/// Even a chain that is not reached, and a journal without postings: what does not fit is refused.
pub fn h_rules_never() {
    warm();
    let to = cat(&[b"ch", &bytes("to", 1, Dom::of(b"abc"))]);
    let a = match choose("action", 3) { 0 => A::Jump(to), 1 => A::All(vec![A::Flag(b("f")), A::Jump(to)]), _ => A::All(vec![A::All(vec![A::Jump(to), A::Noop])]) };
    let all = [(b("start"), vec![R(Pr::True, A::Flag(b("hit")), true), R(Pr::True, A::Jump(b("cha")), true)]), (b("cha"), vec![]), (b("chb"), vec![R(Pr::True, a.clone(), false)])];
    write("rules.ron", &table_ron(&all));
    let ts = if flag("empty journal") { Vec::new() } else { vec![T::new(b"2020-01-01", b"d", vec![P::new(b"A:a", b"GBP1", &[])])] };
    write("in", &render(&ts));
    write("out", b"before");
    let r = run(&["apply-rules", "-o", "out", "in", "table", "rules.ron"]);
    if accepted(&[all.to_vec()], &[true]) { cover("accepted"); check("accepted", r == 0); compare("rules", &parse(&read("out").unwrap()).unwrap(), &interpret(&all, &ts).unwrap()); }
    else { check("refused", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); }
}
/// Files that include each other: each is loaded once, relative to the file that includes it.
pub fn h_rules_include() {
    warm();
    mkdir("d");
    mkdir("d/e");
    // what each file includes, before and after its chain
    let paths = ["main.ron", "d/one.ron", "d/e/two.ron"];
    // how to name file j in file i
    let names: [[&str; 3]; 3] = [["main.ron", "d/one.ron", "d/e/two.ron"], ["../main.ron", "one.ron", "e/two.ron"], ["../../main.ron", "../one.ron", "two.ron"]];
    let mut inc: Vec<Vec<usize>> = Vec::new();
    let mut missing: Vec<bool> = Vec::new();
    let mut chains: Vec<Chain> = Vec::new();
    for i in 0..3 {
        let w = choose(&format!("includes {i}"), 8) as usize;
        inc.push((0..3).filter(|j| w >> j & 1 == 1).collect());
        missing.push(i > 0 && w == 7 && flag(&format!("missing {i}")));
        let c = (if i == 0 { b("start") } else { b(["", "one", "two"][i]) }, vec![R(Pr::True, A::Flag(b(["f0", "f1", "f2"][i])), false)]);
        let mut v = b("[");
        for (k, j) in inc[i].iter().enumerate() { if k == 1 { v.extend_from_slice(&chain_ron(&c)); v.extend_from_slice(b", "); } v.extend_from_slice(format!("Include({:?}), ", names[i][*j]).as_bytes()); }
        if inc[i].len() < 2 { v.extend_from_slice(&chain_ron(&c)); }
        if missing[i] { v.extend_from_slice(if inc[i].len() < 2 { b", Include(\"no\")" } else { b"Include(\"no\")" }); }
        v.push(b']');
        write(paths[i], &v);
        chains.push(c);
    }
    // the start chain asks for the chains of the other files
    let ask = choose("asks for", 3) as usize;
    let to = chains[ask].0.clone();
    chains[0].1.push(R(Pr::True, A::Jump(to), false));
    if ask == 0 { chains[0].1.pop(); }
    let mut v = b("[");
    for j in &inc[0] { v.extend_from_slice(format!("Include({:?}), ", names[0][*j]).as_bytes()); }
    v.extend_from_slice(&chain_ron(&chains[0]));
    v.push(b']');
    write(paths[0], &v);
    let ts = [T::new(b"2020-01-01", b"d", vec![P::new(b"A:a", b"GBP1", &[])])];
    write("in", &render(&ts));
    write("out", b"before");
    let r = run(&["apply-rules", "-o", "out", "in", "table", "main.ron"]);
    let mut reached = [true, false, false];
    for _ in 0..3 { for i in 0..3 { if reached[i] { for j in &inc[i] { reached[*j] = true; } } } }
    let bad = (0..3).any(|i| reached[i] && missing[i]);
    if bad || !reached[ask] { cover("refused"); check("refused", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); return; }
    cover("accepted");
    check("files that include each other are accepted", r == 0);
    let all: Vec<Chain> = (0..3).filter(|i| reached[*i]).map(|i| chains[i].clone()).collect();
    compare("rules", &parse(&read("out").unwrap()).unwrap(), &interpret(&all, &ts).unwrap());
}
/// Letters outside ASCII, and how they are written small.
const LETTERS: [(&str, &str); 9] = [("\u{c9}", "\u{e9}"), ("\u{e9}", "\u{e9}"), ("\u{d6}", "\u{f6}"), ("\u{df}", "\u{df}"), ("\u{3a3}", "\u{3c3}"), ("\u{130}", "i\u{307}"), ("\u{ff21}", "\u{ff41}"), ("\u{416}", "\u{436}"), ("\u{10400}", "\u{10428}")];
pub fn h_rules_letters() {
    warm();
    let (word, small) = LETTERS[choose("letter", 9) as usize];
    let other = LETTERS[choose("letter in the rule", 9) as usize];
    let lower = flag("small in the rule");
    let inner = if lower { other.1 } else { other.0 };
    let n = if flag("small end") { "n" } else { "N" };
    let field = choose("field", 4);
    let tail = bytes("tail", 1, Dom::of(b"nN"));
    let tail = std::str::from_utf8(&tail).unwrap();
    let full = format!("{inner}{tail}");
    // the word is its letter and n, or N
    let value = format!("{word}{n}");
    let value_small = format!("{small}n");
    let kind = choose("matcher", 6);
    let m = match kind {
        0 => format!("Eq(\"{full}\")"), 1 => format!("Contains(\"{inner}\")"), 2 => format!("AsLower(Eq(\"{full}\"))"),
        3 => format!("AsLower(Contains(\"{inner}\"))"), 4 => "Matches(\"^.N$\")".to_string(), _ => "AsLower(Matches(\"^[^n]n$\"))".to_string(),
    };
    let hit = match kind {
        0 => split(eq(value.as_bytes(), full.as_bytes())), 1 => inner == word, 2 => split(eq(value_small.as_bytes(), full.as_bytes())),
        3 => inner == small || (inner == "i" && small == "i\u{307}"), 4 => n == "N", _ => small != "i\u{307}",
    };
    let pred = match field { 0 => format!("Account({m})"), 1 => format!("TransactionDescription({m})"), 2 => format!("PostingFlagTag({m})"), _ => format!("PostingValueTag(\"k\", {m})") };
    write("in", format!("2020-01-01 {}\n  {}  GBP1\n{}", if field == 1 { &value } else { "d" }, if field == 0 { &value } else { "A:a" }, match field { 2 => format!("  ; :{value}:\n"), 3 => format!("  ; k: {value}\n"), _ => String::new() }).as_bytes());
    write("rules.ron", format!("[Chain(\"start\", [Rule(predicate: {pred}, action: AddTransactionFlagTag(\"hit\"), result: Continue)])]").as_bytes());
    check("accepted", run(&["apply-rules", "-o", "out", "in", "table", "rules.ron"]) == 0);
    let got = parse(&read("out").unwrap());
    check("the output is a journal", got.is_some());
    check("exactly the rules whose predicate holds are applied", got.unwrap()[0].c.has(b"hit") == hit);
}
/// Many rules, many chains, many postings; any action and any predicate in one of them.
pub fn h_rules_many() {
    warm();
    let n = 24usize;
    let tag = |k: usize| format!("t{k:02}").into_bytes();
    let at = [0, 1, 9, 10, 20, 21, 23][choose("at", 7) as usize];
    let odd = match choose("rule", 5) {
        0 => R(Pr::True, action("x"), false),
        1 => R(Pr::HasFlag(tag(at.max(1) - 1)), A::Account(b("Seen:before")), true),
        2 => R(Pr::Account(S::Contains(bytes("digit", 1, DIGIT))), A::Flag(b("digit")), flag("return")),
        3 => R(Pr::Not(Box::new(Pr::HasFlag(tag(n - 1)))), A::Desc(4, b("x")), true),
        _ => R(Pr::True, A::Jump(b("start")), false),
    };
    let mut rules: Vec<R> = (0..n).map(|k| R(Pr::True, A::Flag(tag(k)), false)).collect();
    rules.insert(at, odd);
    // in one chain; in chains that jump to the next before or after what they do
    let all: Vec<Chain> = match choose("chains", 3) {
        0 => vec![(b("start"), rules)],
        s => {
            let m = rules.len();
            rules.into_iter().enumerate().map(|(k, r)| {
                let jump = R(Pr::True, A::Jump(format!("c{}", k + 1).into_bytes()), false);
                let name = if k == 0 { b("start") } else { format!("c{k}").into_bytes() };
                (name, if k + 1 == m { vec![r] } else if s == 1 { vec![jump, r] } else { vec![r, jump] })
            }).collect()
        }
    };
    let ts: Vec<T> = if flag("in one transaction") { vec![T::new(b"2020-01-01", b"a", (0..n).map(|k| P::new(&cat(&[b"Acc:", &tag(k)]), b"GBP1", &[])).collect())] }
        else { (0..n).map(|k| T::new(b"2020-01-01", b"a", vec![P::new(&cat(&[b"Acc:", &tag(k)]), b"GBP1", &[])])).collect() };
    applied(&all, &ts);
}
/// Something like `s`: as in postings that are alike, or with blanks at an end, or empty.
fn alike(k: u8, s: &[u8]) -> B {
    use super::h_alike::{vary, VARY};
    if k < VARY { return vary(k, s); }
    match k - VARY { 0 => B::new(), 1 => b(" "), 2 => cat(&[s, b" "]), 3 => cat(&[b" ", s]), 4 => cat(&[s, b"  "]), 5 => cat(&[b"^", s, b"$"]), 6 => cat(&[s, b":"]), _ => cat(&[b":", s, b":"]) }
}
const ALIKE: u8 = 24;
/// What a rule looks for is almost what the posting has, or another posting has, or the transaction.
pub fn h_rules_alike() {
    warm();
    let s = [&b"Some-Name"[..], b"ab:Cd"][choose("text", 2) as usize];
    let x = alike(choose("variant", ALIKE), s);
    let field = choose("field", 6);
    let colon = s.contains(&b':');
    assume(!colon || field < 2 || field == 5);
    let m = match choose("matcher", 6) {
        0 => S::Eq(x.clone()), 1 => S::Contains(x.clone()), 2 => S::Lower(Box::new(S::Eq(x.clone()))), 3 => S::Lower(Box::new(S::Contains(x.clone()))),
        4 => S::Lower(Box::new(S::Lower(Box::new(S::Eq(x.to_ascii_lowercase()))))), _ => S::Lower(Box::new(S::Contains(x.to_ascii_lowercase()))),
    };
    let has = field == 3 || field == 4;
    let pred = match field { 0 => Pr::Account(m), 1 => Pr::Desc(m), 2 => Pr::Flag(m), 3 => Pr::HasFlag(x), 4 => Pr::HasValue(x), _ => Pr::Value(b("key"), m) };
    // who has it: the posting, the other posting, the transaction, the key-value tag's name
    let who = choose("who", 4);
    assume(who == 0 || !has || who < 3);
    let mut t = T::new(b"2020-01-01", b"shop", vec![P::new(b"A:a", b"GBP1", &[b"other"]), P::new(b"A:b", b"GBP-1", &[])]);
    t.posts[1].c.set(b"other", b"value");
    let give = |c: &mut C| match field { 3 | 2 => c.add(s), 4 => c.set(s, b"v"), _ => c.set(b"key", s) };
    match (field, who) {
        (0, 0) => t.posts[0].account = s.to_vec(), (0, 1) => t.posts[1].account = s.to_vec(), (0, _) => t.head = s.to_vec(),
        (1, 0) => t.head = s.to_vec(), (1, 1) => t.posts[0].account = s.to_vec(), (1, _) => t.posts[0].c.text.push(s.to_vec()),
        (_, 0) => give(&mut t.posts[0].c), (_, 1) => give(&mut t.posts[1].c), (_, 2) => give(&mut t.c),
        // a tag of the other kind
        (2, _) => t.posts[0].c.set(s, b"v"), (3, _) | (4, _) => {}, (_, _) => t.posts[0].c.set(b"Key", s),
    }
    let pred = match choose("within", 4) { 0 => pred, 1 => Pr::Not(Box::new(pred)), 2 => Pr::All(vec![Pr::True, pred]), _ => Pr::Any(vec![Pr::Not(Box::new(Pr::True)), pred]) };
    applied(&[(b("start"), vec![R(pred, A::Flag(b("hit")), false)])], &[t]);
}
/// An action names something that is almost what the posting or the transaction has.
pub fn h_rules_near() {
    warm();
    let s = b"Some-Name";
    let x = alike(choose("variant", super::h_alike::VARY), s);
    let mut t = T::new(b"2020-01-01", b"shop", vec![P::new(b"A:a", b"GBP1", &[b"other"]), P::new(b"A:b", b"GBP-1", &[])]);
    let on = choose("has", 8);
    if on & 1 > 0 { t.posts[0].c.add(s); t.posts[0].c.set(s, b"v"); }
    if on & 2 > 0 { t.c.add(s); t.c.set(s, b"v"); }
    if on & 4 > 0 { t.posts[1].c.add(s); t.posts[1].c.set(s, b"w"); }
    let v = match choose("value", 4) { 0 => b("v"), 1 => b("V"), 2 => x.clone(), _ => b("a: b") };
    let a = match choose("action", 9) {
        0 => A::Flag(x), 1 => A::NoFlag(x), 2 => A::Value(x, v), 3 => A::NoValue(x), 4 => A::TrnFlag(x), 5 => A::NoTrnFlag(x), 6 => A::TrnValue(x, v), 7 => A::NoTrnValue(x), _ => A::Account(cat(&[b"A:", &x])),
    };
    applied(&[(b("start"), vec![R(Pr::Account(S::Eq(b("A:a"))), a, false), R(Pr::HasFlag(s.to_vec()), A::Flag(b("hit")), false), R(Pr::HasValue(s.to_vec()), A::Flag(b("hat")), false)])], &[t]);
}
/// Chains with names that are almost the same; chains that are empty, or that nothing reaches.
pub fn h_rules_names() {
    warm();
    let s = b"Some-Name";
    let x = alike(choose("variant", ALIKE), s);
    let to = if flag("to the other") { x.clone() } else { s.to_vec() };
    let go = match choose("jump", 5) { 0 => A::Jump(to), 1 => A::All(vec![A::Noop, A::Jump(to)]), 2 => A::All(vec![A::Flag(b("went")), A::All(vec![A::Jump(to)])]), 3 => A::All(vec![A::All(vec![A::Jump(to.clone())]), A::Jump(s.to_vec())]), _ => A::Noop };
    let mut all: Vec<Chain> = vec![(b("start"), vec![R(Pr::True, go, false), R(Pr::True, A::Flag(b("end")), false)]), (s.to_vec(), vec![R(Pr::True, A::Flag(b("one")), true)])];
    match choose("other", 6) {
        0 => {}
        1 => all.push((x, vec![R(Pr::True, A::Flag(b("two")), false)])), 2 => all.insert(0, (x, vec![])), 3 => all.push((x, vec![])),
        4 => all.push((b("unused"), vec![R(Pr::True, A::Jump(x), false)])), _ => all.push((cat(&[b"_", &x]), vec![R(Pr::True, A::Jump(b("none")), false)])),
    }
    write("rules.ron", &table_ron(&all));
    let ts = [T::new(b"2020-01-01", b"d", vec![P::new(b"A:a", b"GBP1", &[])])];
    write("in", &render(&ts));
    write("out", b"before");
    let r = run(&["apply-rules", "-o", "out", "in", "table", "rules.ron"]);
    if accepted(&[all.clone()], &[true]) { cover("accepted"); check("accepted", r == 0); compare("rules", &parse(&read("out").unwrap()).unwrap(), &interpret(&all, &ts).unwrap()); }
    else { cover("refused"); check("refused", r == 1); check("nothing is written", eq(&read("out").unwrap(), b"before")); }
}
