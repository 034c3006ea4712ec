//! Shared by the harnesses: a model of journals, an independent reader of what the program
//! writes, and a reference model of merge.
#![allow(dead_code)]
use super::vf::*;

pub type B = Vec<u8>;
pub fn b(s: &str) -> B { s.as_bytes().to_vec() }
pub fn cat(parts: &[&[u8]]) -> B { let mut v = Vec::new(); for p in parts { v.extend_from_slice(p); } v }
/// Equality of contents as a value (no case split when the lengths agree).
pub fn eq(a: &[u8], c: &[u8]) -> bool { a.len() == c.len() && same(a, c) }
#[inline(never)]
fn same(a: &[u8], c: &[u8]) -> bool { a == c }
pub fn has(set: &[B], x: &[u8]) -> bool { let mut r = false; for y in set { r |= eq(y, x); } r }
/// Both have the same members.
pub fn same_set(a: &[B], c: &[B]) -> bool {
    let mut r = true;
    for x in a { r &= has(c, x); }
    for x in c { r &= has(a, x); }
    r
}
pub fn starts(x: &[u8], p: &[u8]) -> bool { x.len() >= p.len() && same(&x[..p.len()], p) }

/// A comment: flag tags, key-value tags, lines of text.
#[derive(Clone, Default)]
pub struct C { pub tags: Vec<B>, pub kv: Vec<(B, B)>, pub text: Vec<B> }
#[derive(Clone, Default)]
pub struct P { pub status: u8, pub account: B, pub amount: B, pub balance: B, pub c: C }
#[derive(Clone, Default)]
pub struct T { pub date: B, pub head: B, pub c: C, pub posts: Vec<P> }

impl C {
    pub fn tag(mut self, t: &[u8]) -> C { self.tags.push(t.to_vec()); self }
    pub fn get(&self, k: &[u8]) -> Option<&B> { let mut r = None; for (x, v) in &self.kv { if eq(x, k) { r = Some(v); } } r }
    pub fn set(&mut self, k: &[u8], v: &[u8]) {
        for (x, w) in &mut self.kv { if eq(x, k) { *w = v.to_vec(); return; } }
        self.kv.push((k.to_vec(), v.to_vec()));
    }
    pub fn add(&mut self, t: &[u8]) { if !split(has(&self.tags, t)) { self.tags.push(t.to_vec()); } }
    pub fn has(&self, t: &[u8]) -> bool { has(&self.tags, t) }
    pub fn remove(&mut self, t: &[u8]) { let mut v = Vec::new(); for x in self.tags.drain(..) { if !eq(&x, t) { v.push(x); } } self.tags = v; }
    pub fn fps(&self) -> Vec<B> { self.tags.iter().filter(|t| starts(t, b"fp-")).cloned().collect() }
    fn render(&self, out: &mut B) {
        for t in &self.tags { out.extend_from_slice(b"  ; :"); out.extend_from_slice(t); out.extend_from_slice(b":\n"); }
        for t in &self.text { out.extend_from_slice(b"  ; "); out.extend_from_slice(t); out.extend_from_slice(b"\n"); }
        for (k, v) in &self.kv { out.extend_from_slice(b"  ; "); out.extend_from_slice(k); out.extend_from_slice(b": "); out.extend_from_slice(v); out.extend_from_slice(b"\n"); }
    }
    /// One line of comment text as the program writes it: `k: v`, or `:tag:tag: text`, or text.
    fn line(&mut self, l: &[u8]) {
        // key: value
        let mut k = 0;
        while k < l.len() && l[k] != b':' && l[k] != b' ' { k += 1; }
        if k > 0 && k < l.len() && l[k] == b':' && (k + 1 == l.len() || l[k + 1] == b' ') {
            let v = if k + 2 <= l.len() { &l[k + 2..] } else { &l[l.len()..] };
            self.kv.push((l[..k].to_vec(), v.to_vec()));
            return;
        }
        if !l.is_empty() && l[0] == b':' {
            let mut p = 1;
            let mut s = 1;
            while p < l.len() && l[p] != b' ' {
                if l[p] == b':' { if p > s { self.tags.push(l[s..p].to_vec()); } s = p + 1; }
                p += 1;
            }
            let mut r = &l[s..];
            while !r.is_empty() && r[0] == b' ' { r = &r[1..]; }
            if !r.is_empty() { self.text.push(r.to_vec()); }
            return;
        }
        if !l.is_empty() { self.text.push(l.to_vec()); }
    }
}
impl P {
    pub fn new(account: &[u8], amount: &[u8], tags: &[&[u8]]) -> P {
        P { account: account.to_vec(), amount: amount.to_vec(), c: C { tags: tags.iter().map(|t| t.to_vec()).collect(), ..C::default() }, ..P::default() }
    }
    pub fn render(&self, out: &mut B) {
        out.extend_from_slice(b"  ");
        if self.status != 0 { out.push(self.status); out.push(b' '); }
        out.extend_from_slice(&self.account);
        if !self.amount.is_empty() || !self.balance.is_empty() { out.extend_from_slice(b"  "); }
        out.extend_from_slice(&self.amount);
        if !self.balance.is_empty() { out.extend_from_slice(b" = "); out.extend_from_slice(&self.balance); }
        out.push(b'\n');
        self.c.render(out);
    }
}
impl T {
    pub fn new(date: &[u8], head: &[u8], posts: Vec<P>) -> T { T { date: date.to_vec(), head: head.to_vec(), c: C::default(), posts } }
    pub fn render(&self, out: &mut B) {
        out.extend_from_slice(&self.date);
        if self.head.first() != Some(&b'=') { out.push(b' '); }
        out.extend_from_slice(&self.head);
        out.push(b'\n');
        self.c.render(out);
        for p in &self.posts { p.render(out); }
    }
}
pub fn render(ts: &[T]) -> B {
    let mut v = Vec::new();
    for (k, t) in ts.iter().enumerate() { if k > 0 { v.push(b'\n'); } t.render(&mut v); }
    v
}

/// One item of a journal.
#[derive(Clone)]
pub enum I { Blank, Comment(B), Trn(T), Other(B) }
/// Reads a journal in the form the program writes: transactions and blank lines only.
pub fn parse(s: &[u8]) -> Option<Vec<T>> {
    let mut v = Vec::new();
    for i in items(s, false)? { match i { I::Blank => {} I::Trn(t) => v.push(t), _ => return None } }
    Some(v)
}
fn date_like(l: &[u8]) -> bool {
    l.len() >= 10 && l[4] == b'-' && l[7] == b'-' && l[..4].iter().chain(&l[5..7]).chain(&l[8..10]).all(|c| c.is_ascii_digit())
}
/// Reads a journal in the form the program writes. With `raw`, comment lines are kept as they are.
/// None if it is not of that form.
pub fn items(s: &[u8], raw: bool) -> Option<Vec<I>> {
    let mut ts: Vec<I> = Vec::new();
    let mut p = 0;
    while p < s.len() {
        let mut e = p;
        while e < s.len() && s[e] != b'\n' { e += 1; }
        if e == s.len() { return None; }
        let l = &s[p..e];
        p = e + 1;
        if l.is_empty() { ts.push(I::Blank); continue; }
        if l[0] == b';' { if l.len() < 2 || l[1] != b' ' { return None; } ts.push(I::Comment(l[2..].to_vec())); continue; }
        if date_like(l) {
            let head = if l.len() > 11 { l[11..].to_vec() } else { Vec::new() };
            let head = if l.len() > 10 && l[10] == b'=' { l[10..].to_vec() } else if l.len() > 10 && l[10] != b' ' { return None } else { head };
            ts.push(I::Trn(T { date: l[..10].to_vec(), head, ..T::default() }));
            continue;
        }
        if l[0] != b' ' { ts.push(I::Other(l.to_vec())); continue; }
        if l.len() < 3 || l[1] != b' ' { return None; }
        let l = &l[2..];
        let t = match ts.last_mut() { Some(I::Trn(t)) => t, _ => return None };
        if l[0] == b';' {
            let c = if let Some(q) = t.posts.last_mut() { &mut q.c } else { &mut t.c };
            let l = if l.len() >= 2 && l[1] == b' ' { &l[2..] } else { &l[1..] };
            if raw { c.text.push(l.to_vec()); } else { c.line(l); }
            continue;
        }
        let mut q = P::default();
        let mut l = l;
        if (l[0] == b'*' || l[0] == b'!') && l.len() > 1 && l[1] == b' ' { q.status = l[0]; l = &l[2..]; }
        let mut k = 0;
        while k < l.len() && !(l[k] == b' ' && k + 1 < l.len() && l[k + 1] == b' ') { k += 1; }
        q.account = l[..k].to_vec();
        let r = if k + 2 <= l.len() { &l[k + 2..] } else { &l[l.len()..] };
        let mut k = 0;
        while k < r.len() && !(r[k] == b'=' && k + 1 < r.len() && r[k + 1] == b' ') { k += 1; }
        let mut a = &r[..k];
        while !a.is_empty() && a[a.len() - 1] == b' ' { a = &a[..a.len() - 1]; }
        q.amount = a.to_vec();
        if k < r.len() { q.balance = r[k + 2..].to_vec(); }
        t.posts.push(q);
    }
    Some(ts)
}
pub fn compare_items(what: &str, got: &[I], want: &[I]) {
    check(&format!("{what}: the number of items"), got.len() == want.len());
    if got.len() != want.len() { return; }
    for (g, w) in got.iter().zip(want) {
        match (g, w) {
            (I::Blank, I::Blank) => {}
            (I::Comment(a), I::Comment(c)) => check(&format!("{what}: a comment line"), eq(a, c)),
            (I::Other(a), I::Other(c)) => check(&format!("{what}: a price or include line"), eq(a, c)),
            (I::Trn(a), I::Trn(c)) => compare(what, std::slice::from_ref(a), std::slice::from_ref(c)),
            _ => check(&format!("{what}: the kind of an item"), false),
        }
    }
}

pub fn same_kv(a: &[(B, B)], c: &[(B, B)]) -> bool {
    let mut r = a.len() == c.len();
    for (k, v) in a { let mut f = false; for (x, y) in c { f |= eq(k, x) & eq(v, y); } r &= f; }
    for (k, v) in c { let mut f = false; for (x, y) in a { f |= eq(k, x) & eq(v, y); } r &= f; }
    r
}
pub fn same_list(a: &[B], c: &[B]) -> bool {
    if a.len() != c.len() { return false; }
    let mut r = true;
    for k in 0..a.len() { r &= eq(&a[k], &c[k]); }
    r
}
/// Reports, field by field, where `got` differs from `want`.
pub fn compare_comment(what: &str, got: &C, want: &C) {
    check(&format!("{what}: the flag tags"), same_set(&got.tags, &want.tags));
    check(&format!("{what}: the key-value tags"), same_kv(&got.kv, &want.kv));
    check(&format!("{what}: the text lines"), same_list(&got.text, &want.text));
}
pub fn compare(what: &str, got: &[T], want: &[T]) {
    check(&format!("{what}: the number of transactions"), got.len() == want.len());
    if got.len() != want.len() { return; }
    for (g, w) in got.iter().zip(want) {
        check(&format!("{what}: the date"), eq(&g.date, &w.date));
        check(&format!("{what}: the description"), eq(&g.head, &w.head));
        compare_comment(&format!("{what}: transaction"), &g.c, &w.c);
        check(&format!("{what}: the number of postings"), g.posts.len() == w.posts.len());
        if g.posts.len() != w.posts.len() { return; }
        for (p, q) in g.posts.iter().zip(&w.posts) {
            check(&format!("{what}: posting status"), p.status == q.status);
            check(&format!("{what}: posting account"), eq(&p.account, &q.account));
            check(&format!("{what}: posting amount"), eq(&p.amount, &q.amount));
            check(&format!("{what}: posting balance"), eq(&p.balance, &q.balance));
            compare_comment(&format!("{what}: posting"), &p.c, &q.c);
        }
    }
}

/// The documented merge, on the model. Amounts are compared by `amt`.
pub struct Model { pub trns: Vec<T>, pub unmerged: Vec<T> }
pub fn amt(a: &[u8], c: &[u8]) -> bool { let (x, y) = (words(a), words(c)); if x.len() != y.len() { return false; } let mut r = true; for k in 0..x.len() { r &= eq(&number(&x[k]), &number(&y[k])); } r }
fn words(a: &[u8]) -> Vec<B> {
    let mut v = Vec::new();
    let mut w = Vec::new();
    for c in a { if *c == b' ' { v.push(w); w = Vec::new(); } else { w.push(*c); } }
    v.push(w);
    v
}
/// Drops the zeros at the end of a fraction.
fn number(w: &[u8]) -> B {
    let mut dot = false;
    for c in w { dot |= *c == b'.'; }
    let mut e = w.len();
    if dot { while w[e - 1] == b'0' { e -= 1; } if w[e - 1] == b'.' { e -= 1; } }
    w[..e].to_vec()
}
/// What the model decided, for covers.
#[derive(Default)]
pub struct Seen { pub fp: bool, pub soft: bool, pub many: bool, pub fresh: bool, pub partial: bool, pub err: &'static str }
impl Model {
    pub fn new() -> Model { Model { trns: Vec::new(), unmerged: Vec::new() } }
    /// Merges one source set; Err is the reason it has to be refused.
    pub fn merge(&mut self, src: &[T], seen: &mut Seen) -> Result<(), &'static str> {
        #[derive(Clone)]
        enum A { New, Into(usize, usize) }
        let mut fps: Vec<B> = Vec::new();
        let mut plan: Vec<Option<Vec<A>>> = Vec::new();
        let mut un: Vec<T> = Vec::new();
        let mut used: Vec<(usize, usize)> = Vec::new();
        for t in src {
            let mut acts = Vec::new();
            let mut amb = false;
            let mut u = t.clone();
            for (k, p) in t.posts.iter().enumerate() {
                for g in &p.c.tags { if split(starts(g, b"candidate-")) { return Err("candidate tag"); } }
                let f = p.c.fps();
                if f.is_empty() { return Err("no fingerprint"); }
                for x in &f { if split(has(&fps, x)) { return Err("fingerprint twice in a source"); } }
                fps.extend(f.iter().cloned());
                let mut hit: Vec<(usize, usize)> = Vec::new();
                for (i, dt) in self.trns.iter().enumerate() { for (j, d) in dt.posts.iter().enumerate() {
                    let mut m = false;
                    for x in &f { m |= has(&d.c.fps(), x); }
                    if split(m) { hit.push((i, j)); }
                } }
                if hit.len() > 1 { return Err("fingerprints of different postings"); }
                if hit.len() == 1 { acts.push(A::Into(hit[0].0, hit[0].1)); seen.fp = true; continue; }
                for (i, dt) in self.trns.iter().enumerate() { for (j, d) in dt.posts.iter().enumerate() {
                    let unk = d.c.has(b"unknown-account") | p.c.has(b"unknown-account");
                    let bal = d.balance.is_empty() || p.balance.is_empty() || amt(&d.balance, &p.balance);
                    let m = eq(&dt.date, &t.date) & amt(&d.amount, &p.amount) & bal & (unk | eq(bare(&d.account), bare(&p.account)));
                    if split(m) { hit.push((i, j)); }
                } }
                match hit.len() {
                    0 => { acts.push(A::New); seen.fresh = true; }
                    1 => { acts.push(A::Into(hit[0].0, hit[0].1)); seen.soft = true; }
                    _ => {
                        amb = true;
                        seen.many = true;
                        for (i, j) in hit { let d = first(&self.trns[i].posts[j].c.fps()); u.posts[k].c.add(&cat(&[b"candidate-", &d])); }
                    }
                }
            }
            if amb { un.push(u); plan.push(None); continue; }
            let mut parents: Vec<usize> = Vec::new();
            for a in &acts { if let A::Into(i, _) = a { if !parents.contains(i) { parents.push(*i); } } }
            if parents.len() > 1 { return Err("postings of different transactions"); }
            plan.push(Some(acts));
        }
        for a in plan.iter().flatten().flatten() {
            if let A::Into(i, j) = a { if used.contains(&(*i, *j)) { return Err("two postings match the same posting"); } used.push((*i, *j)); }
        }
        for (t, acts) in src.iter().zip(plan) {
            let acts = match acts { None => continue, Some(a) => a };
            let mut dest = None;
            for a in &acts { if let A::Into(i, _) = a { dest = Some(*i); } }
            let dest = match dest { Some(d) => d, None => { self.trns.push(T { posts: Vec::new(), ..t.clone() }); self.trns.len() - 1 } };
            for (p, a) in t.posts.iter().zip(acts) {
                match a {
                    A::New => { if self.trns[dest].posts.len() > 0 { seen.partial = true; } self.trns[dest].posts.push(p.clone()); }
                    A::Into(i, j) => merge_post(&mut self.trns[i].posts[j], p),
                }
            }
        }
        self.unmerged.extend(un);
        Ok(())
    }
    /// The merged journal: by date, otherwise in order of arrival.
    pub fn output(&self) -> Vec<T> {
        let mut v: Vec<T> = Vec::new();
        for t in &self.trns {
            let mut k = v.len();
            while k > 0 && split(t.date < v[k - 1].date) { k -= 1; }
            let mut t = t.clone();
            t.c.kv.retain(|(k, _)| !eq(k, b"source-file"));
            v.insert(k, t);
        }
        v
    }
}
/// The first of the fingerprints, which stands for all of them.
fn first(fps: &[B]) -> B {
    let mut k = 0;
    for i in 1..fps.len() { if split(fps[i] < fps[k]) { k = i; } }
    fps[k].clone()
}
/// An account without the brackets of a virtual posting.
pub fn bare(a: &[u8]) -> &[u8] { if !a.is_empty() && (a[0] == b'(' || a[0] == b'[') { &a[1..a.len() - 1] } else { a } }
pub fn merge_post(d: &mut P, s: &P) {
    if d.status == 0 || (d.status == b'!' && s.status == b'*') { d.status = s.status; }
    if d.balance.is_empty() { d.balance = s.balance.clone(); }
    if split(d.c.has(b"unknown-account") & !s.c.has(b"unknown-account")) { d.c.remove(b"unknown-account"); let n = d.account.len(); let (l, r) = if bare(&d.account).len() < n { (d.account[..1].to_vec(), d.account[n - 1..].to_vec()) } else { (B::new(), B::new()) }; d.account = cat(&[&l, bare(&s.account), &r]); }
    for t in &s.c.tags { if !eq(t, b"unknown-account") { d.c.add(t); } }
    for l in &s.c.text { if !split(has(&d.c.text, l)) { d.c.text.push(l.clone()); } }
    for (k, v) in &s.c.kv { d.c.set(k, v); }
}
/// Adds the source tag merge gives to transactions of a file that have none.
pub fn sourced(ts: &[T], file: &str) -> Vec<T> {
    let mut v = ts.to_vec();
    for t in &mut v { if t.c.get(b"source-file").is_none() { t.c.set(b"source-file", file.as_bytes()); } }
    v
}

/// The source sets of one file: by source tag (default: the file), in order of the tag.
pub fn source_sets(ts: &[T], file: &str) -> Vec<Vec<T>> {
    let mut sets: Vec<(B, Vec<T>)> = Vec::new();
    for t in sourced(ts, file) {
        let k = t.c.get(b"source-file").unwrap().clone();
        let mut p = 0;
        let mut found = false;
        while p < sets.len() {
            if split(eq(&sets[p].0, &k)) { found = true; break; }
            if split(k < sets[p].0) { break; }
            p += 1;
        }
        if found { sets[p].1.push(t); } else { sets.insert(p, (k, vec![t])); }
    }
    sets.into_iter().map(|x| x.1).collect()
}
