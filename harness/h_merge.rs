//! merge against the documented algorithm.
use super::util::*;
use super::vf::*;

/// Runs merge over `files` and compares both outputs (or the refusal) with the model.
pub fn against_model(files: &[(&str, Vec<T>)]) { merge_as(files, 0) }
/// `how`: 1 the last file is standard input, 2 the output is standard output, 4 nowhere to put
/// unmerged transactions, 8 no old files.
pub fn merge_as(files: &[(&str, Vec<T>)], how: u8) {
    let mut m = Model::new();
    let mut seen = Seen::default();
    let mut bad = "";
    let last = files.len() - 1;
    for (k, (f, ts)) in files.iter().enumerate() { if k == last && how & 1 != 0 { stdin(&render(ts)) } else { write(f, &render(ts)) } }
    let old = |s: &'static [u8]| if how & 8 == 0 { Some(s.to_vec()) } else { None };
    let (old_out, old_un) = (old(b"old out\n"), old(b"old un\n"));
    if how & 8 == 0 { write("out", b"old out\n"); write("un", b"old un\n"); }
    let mut args = vec!["merge"];
    if how & 2 == 0 { args.push("-o"); args.push("out"); }
    if how & 4 == 0 { args.push("-u"); args.push("un"); }
    for (k, (f, _)) in files.iter().enumerate() { args.push(if k == last && how & 1 != 0 { "-" } else { f }); }
    let count = file_count();
    let r = run(&args);
    for (k, (f, ts)) in files.iter().enumerate() {
        let name = if k == last && how & 1 != 0 { "<stdio>".to_string() } else { format!("{:?}", f) };
        for set in source_sets(ts, &name) { if bad.is_empty() { if let Err(e) = m.merge(&set, &mut seen) { bad = e; } } }
    }
    if bad.is_empty() && how & 4 != 0 && !m.unmerged.is_empty() { bad = "unmerged and nowhere to put it"; }
    for (k, (f, ts)) in files.iter().enumerate() { if k != last || how & 1 == 0 { check("inputs are not touched", eq(&read(f).unwrap(), &render(ts))); } }
    if !bad.is_empty() {
        cover(bad);
        check(&format!("refused: {bad}"), r == 1);
        check("a refused merge leaves the merged output", read("out") == old_out);
        check("a refused merge leaves the unmerged output", read("un") == old_un);
        check("a refused merge makes no files", file_count() == count);
        if how & 2 != 0 { check("a refused merge prints no journal", stdout().is_empty()); }
        return;
    }
    check("accepted", r == 0);
    if r != 0 { return; }
    if seen.fp { cover("merged by fingerprint"); }
    if seen.soft { cover("merged by soft match"); }
    if seen.many { cover("ambiguous"); }
    if seen.fresh { cover("new posting"); }
    if seen.partial { cover("posting added to an existing transaction"); }
    let got = parse(&if how & 2 == 0 { read("out").unwrap() } else { stdout() });
    check("merged output is a journal", got.is_some());
    if let Some(g) = got { compare("merged", &g, &m.output()); }
    if how & 2 != 0 { check("the output goes where it is asked for", read("out") == old_out); }
    if m.unmerged.is_empty() { check("no unmerged output is written when nothing is unmerged", read("un") == old_un); }
    else {
        let got = parse(&read("un").unwrap());
        check("unmerged output is a journal", got.is_some());
        if let Some(g) = got { compare("unmerged", &g, &m.unmerged); }
    }
}
pub fn warm() {
    reset();
    write("w", b"2020-01-01 foo\n  A:B  GBP1.00 = GBP2.00\n  ; :fp-aaa:\n  ; k: v\n");
    let r = run(&["merge", "-o", "w2", "w"]);
    check("warm", r == 0);
    reset();
}
fn d(c: u8) -> B { cat(&[b"2020-01-0", &[c]]) }
fn fp(c: u8) -> B { cat(&[b"fp-", &[c]]) }

fn gbp(c: u8) -> B { cat(&[b"GBP", &[c], b".00"]) }
fn letter(l: &str, set: &[u8]) -> u8 { byte(l, Dom::of(set)) }

/// One posting against one posting: every cell of the matching table.
pub fn h_merge_one() {
    warm();
    let mk = |s: &str| {
        let mut p = P::default();
        p.account = cat(&[b"A:", &[letter(&format!("{s}.account"), b"xy")]]);
        p.amount = gbp(letter(&format!("{s}.amount"), b"12"));
        if flag(&format!("{s}.balance?")) { p.balance = gbp(letter(&format!("{s}.balance"), b"12")); }
        p.c.tags.push(fp(letter(&format!("{s}.fp"), b"ab")));
        if flag(&format!("{s}.unknown")) { p.c.tags.push(b("unknown-account")); }
        p.status = [0, b'!'][choose(&format!("{s}.status"), 2) as usize];
        T::new(&d(letter(&format!("{s}.date"), b"12")), b"foo", vec![p])
    };
    let x = mk("d");
    let y = mk("s");
    against_model(&[("a", vec![x]), ("b", vec![y])]);
}
/// Amounts and balances of different shapes: none, commodity on either side, scales, signs,
/// prices, zero balances.
pub fn h_merge_amounts() {
    warm();
    let mk = |s: &str| {
        let mut p = P::new(b"A:B", b"", &[&fp(if s == "d" { b'a' } else { b'b' })]);
        let n = letter(&format!("{s}.n"), b"12");
        p.amount = match choose(&format!("{s}.amount"), 10) {
            0 => b(""),
            1 => cat(&[b"GBP", &[n]]),
            2 => cat(&[b"GBP", &[n], b".0"]),
            3 => cat(&[b"GBP-", &[n], b".00"]),
            4 => cat(&[b"USD", &[n]]),
            5 => cat(&[&[n], b" GBP"]),
            6 => cat(&[b"GBP", &[n], b" @ USD2"]),
            7 => cat(&[b"GBP", &[n], b" @ USD3"]),
            8 => cat(&[b"GBP", &[n], b" {USD2}"]),
            _ => cat(&[b"GBP1", &[n], b".05"]),
        };
        p.balance = match choose(&format!("{s}.balance"), 4) {
            0 => b(""),
            1 => b("0"),
            2 => cat(&[b"GBP", &[letter(&format!("{s}.m"), b"12")], b".0"]),
            _ => cat(&[b"GBP-", &[letter(&format!("{s}.m"), b"12")]]),
        };
        if p.amount.is_empty() { assume(p.balance.is_empty()); }
        T::new(&d(b'1'), b"foo", vec![p])
    };
    let x = mk("d");
    let y = mk("s");
    against_model(&[("a", vec![x]), ("b", vec![y])]);
}
/// Comments of matching postings: flag tags, key-value tags, text lines.
pub fn h_merge_comments() {
    warm();
    let mk = |s: &str| {
        let mut p = P::new(b"A:B", b"GBP1", &[&fp(b'a')]);
        for k in 0..choose(&format!("{s}.tags"), 3) { p.c.add(&[b't', letter(&format!("{s}.tag{k}"), b"12")]); }
        if flag(&format!("{s}.unknown")) { p.c.tags.push(b("unknown-account")); }
        for k in 0..choose(&format!("{s}.kvs"), 2) { let key = [b'k', letter(&format!("{s}.key{k}"), b"12")]; if flag(&format!("{s}.empty{k}")) { p.c.set(&key, b""); } else { p.c.set(&key, &[b'v', letter(&format!("{s}.value{k}"), b"12")]); } }
        for k in 0..choose(&format!("{s}.lines"), 3) { p.c.text.push(vec![b'l', letter(&format!("{s}.line{k}"), b"12")]); }
        let mut t = T::new(&d(b'1'), b"foo", vec![p]);
        if s == "d" { t.c.set(b"tk", b"tv"); t.c.tags.push(b("tt")); }
        t
    };
    let x = mk("d");
    let y = mk("s");
    against_model(&[("a", vec![x]), ("b", vec![y])]);
}
/// One source transaction of one or two postings against three existing postings in one, two or
/// three transactions.
pub fn h_merge_many() {
    warm();
    let shape = choose("shape", 3);
    let mut ps = Vec::new();
    for k in 0..3u8 {
        let mut p = P::new(&[b'A', b':', letter(&format!("d{k}.account"), b"xy")], &gbp(letter(&format!("d{k}.amount"), b"12")), &[&fp(b'a' + k)]);
        if k == 1 && flag("d1.unknown") { p.c.tags.push(b("unknown-account")); }
        if k == 2 && flag("d2.balance?") { p.balance = gbp(letter("d2.balance", b"12")); }
        ps.push(p);
    }
    let c = ps.pop().unwrap();
    let bb = ps.pop().unwrap();
    let a = ps.pop().unwrap();
    let dd = d(letter("d.date", b"12"));
    let dest = match shape {
        0 => vec![T::new(&d(b'1'), b"one", vec![a, bb, c])],
        1 => vec![T::new(&d(b'1'), b"one", vec![a, bb]), T::new(&dd, b"two", vec![c])],
        _ => vec![T::new(&d(b'1'), b"one", vec![a]), T::new(&d(b'1'), b"two", vec![bb]), T::new(&dd, b"three", vec![c])],
    };
    let mut sp = Vec::new();
    for k in 0..1 + choose("s.n", 2) {
        let mut p = P::new(&[b'A', b':', letter(&format!("s{k}.account"), b"xy")], &gbp(letter(&format!("s{k}.amount"), b"12")), &[&fp(letter(&format!("s{k}.fp"), if k == 0 { b"adef" } else { b"cgd" }))]);
        if k == 0 && flag("s0.balance?") { p.balance = gbp(b'1'); }
        sp.push(p);
    }
    against_model(&[("a", dest), ("b", vec![T::new(&d(b'1'), b"src", sp)])]);
}
/// Two source transactions of up to two postings with freely chosen fingerprints, against two
/// existing transactions.
pub fn h_merge_sets() {
    warm();
    let dest = vec![
        T::new(&d(b'1'), b"one", vec![P::new(b"A:x", b"GBP1", &[b"fp-a"]), P::new(b"A:y", b"GBP-1", &[b"fp-b"])]),
        T::new(&d(b'2'), b"two", vec![P::new(b"A:x", b"GBP1", &[b"fp-c", b"fp-d"])]),
    ];
    let mut src = Vec::new();
    for k in 0..2 {
        let mut ps = Vec::new();
        for j in 0..1 + choose(&format!("s{k}.n"), 2) {
            let mut p = P::new(&[b'A', b':', if j == 0 { b'x' } else { b'y' }], &[b'G', b'B', b'P', letter(&format!("s{k}{j}.amount"), b"12")], &[&fp(letter(&format!("s{k}{j}.fp"), b"abcef"))]);
            if j == 0 && flag(&format!("s{k}{j}.fp2?")) { let f = fp(letter(&format!("s{k}{j}.fp2"), b"abdg")); assume(!eq(&f, &p.c.tags[0])); p.c.tags.push(f); }
            ps.push(p);
        }
        src.push(T::new(&d(if k == 0 { b'1' } else { letter("s1.date", b"12") }), if k == 0 { b"src0" } else { b"src1" }, ps));
    }
    against_model(&[("a", dest), ("b", src)]);
}
/// Three files merged one after the other: what one merge adds, the next has to find.
pub fn h_merge_chain() {
    warm();
    let a = vec![T::new(&d(b'1'), b"one", vec![P::new(b"A:x", b"GBP1", &[b"fp-a"])])];
    let mk = |s: &str, f: &[u8]| {
        let mut ps = Vec::new();
        for j in 0..1 + choose(&format!("{s}.n"), 2) {
            let mut p = P::new(&[b'A', b':', letter(&format!("{s}{j}.account"), b"xy")], &gbp(letter(&format!("{s}{j}.amount"), b"12")), &[&fp(letter(&format!("{s}{j}.fp"), f))]);
            if j == 0 && flag(&format!("{s}.fp2?")) { p.c.add(&fp(letter(&format!("{s}.fp2"), b"de"))); }
            ps.push(p);
        }
        vec![T::new(&d(letter(&format!("{s}.date"), b"12")), s.as_bytes(), ps)]
    };
    let x = mk("b", b"abc");
    let y = mk("c", b"abdf");
    against_model(&[("a", a), ("b", x), ("c", y)]);
}

const DATES: [&[u8]; 3] = [b"2019-12-31", b"2020-01-02", b"2020-02-01"];
/// Dates, source tags and the order of transactions over two files.
pub fn h_merge_order() { order(2, 3); }
pub fn h_merge_dates() { order(3, 1); }
pub fn h_merge_order_deep() { order(3, 4); }
fn order(dates: u8, sources: u8) {
    warm();
    let mut n = b'a';
    let mut mk = |s: &str, k: usize| {
        let mut v = Vec::new();
        for j in 0..k {
            let mut t = T::new(DATES[choose(&format!("{s}{j}.date"), dates as _) as usize], &[b't', n], vec![P::new(b"A:x", b"GBP1", &[&fp(n)]), P::new(b"A:y", b"GBP-1", &[&fp(n + 1)])]);
            n += 2;
            match choose(&format!("{s}{j}.source"), sources as _) { 0 => {} k => t.c.set(b"source-file", &[b"!pq"[k as usize - 1]]) }
            t.posts[0].account = vec![b'A', b':', n];
            t.posts[1].account = vec![b'B', b':', n];
            v.push(t);
        }
        v
    };
    let x = mk("p", 3);
    let y = mk("q", 1);
    against_model(&[("a", x), ("b", y)]);
}
/// Input that has to be refused, at any place; outputs stay as they were.
pub fn h_merge_refused() { refused(2); }
pub fn h_merge_refused_deep() { refused(6); }
fn refused(mut odd: u8) {
    warm();
    let mut mk = |s: &str, base: u8, n: u8| {
        let mut v = Vec::new();
        for k in 0..n {
            let mut t = T::new(&d(b'1' + k), b"foo", Vec::new());
            for j in 0..2 {
                let mut p = P::new(&[b'A', b':', base + 2 * k + j], &[b'G', b'B', b'P', b'1' + j], &[]);
                let c = if odd > 0 && flag(&format!("{s}{k}{j}.odd")) { odd -= 1; 1 + choose(&format!("{s}{k}{j}.how"), 4) } else { 0 };
                match c {
                    0 => p.c.tags.push(fp(base + 2 * k + j)),
                    1 => p.c.tags.push(b("xfp-y")),
                    2 => {}
                    3 => { p.c.tags.push(fp(base + 2 * k + j)); p.c.tags.push(b("candidate-fp-q")); }
                    _ => { p.c.tags.push(fp(letter(&format!("{s}{k}{j}.fp"), b"abcd"))); }
                }
                t.posts.push(p);
            }
            v.push(t);
        }
        v
    };
    let x = mk("p", b'a', 2);
    let y = mk("q", b'e', 1);
    against_model(&[("a", x), ("b", y)]);
}
/// Unmerged transactions and nowhere to put them; the output may be one of the inputs.
pub fn h_merge_nowhere() {
    warm();
    let x = vec![T::new(&d(b'1'), b"one", vec![P::new(&[b'A', b':', letter("d0.account", b"xy")], b"GBP1", &[b"fp-a"]), P::new(&[b'A', b':', letter("d1.account", b"xy")], &[b'G', b'B', b'P', letter("d1.amount", b"12")], &[b"fp-b"])])];
    let mut p = P::new(b"A:x", b"GBP1", &[&fp(letter("s.fp", b"abc"))]);
    if flag("s.unknown") { p.c.tags.push(b("unknown-account")); }
    let y = vec![T::new(&d(b'1'), b"src", vec![p])];
    let (fx, fy) = (render(&x), render(&y));
    write("a", &fx);
    write("b", &fy);
    let own = flag("output is an input");
    write("out", b"old");
    let r = if own { run(&["merge", "-o", "a", "a", "b"]) } else { run(&["merge", "a", "b", "-o", "out"]) };
    let mut m = Model::new();
    let mut seen = Seen::default();
    m.merge(&sourced(&x, "\"a\""), &mut seen).ok().unwrap();
    let ok = m.merge(&sourced(&y, "\"b\""), &mut seen).is_ok() && m.unmerged.is_empty();
    check("refused exactly if it cannot be merged", (r == 0) == ok);
    check("the other input is not touched", eq(&read("b").unwrap(), &fy));
    check("no output file but the one asked for", file_count() == 3);
    if ok {
        cover("merged");
        let got = parse(&read(if own { "a" } else { "out" }).unwrap());
        check("merged output is a journal", got.is_some());
        if let Some(g) = got { compare("merged", &g, &m.output()); }
        if own { check("the other file is not touched", eq(&read("out").unwrap(), b"old")); }
    } else {
        cover("unmerged and nowhere to put it");
        check("a refused merge leaves its input", eq(&read("a").unwrap(), &fx));
        check("a refused merge leaves the merged output", eq(&read("out").unwrap(), b"old"));
    }
}
/// Key-value tags of one posting as the last merged input has them, everything else unchanged.
pub fn again(first: &[(&str, Vec<T>)], which: usize) {
    for (f, ts) in first { write(f, &render(ts)); }
    let mut args = vec!["merge", "-u", "un", "-o", "o1"];
    for (f, _) in first { args.push(f); }
    if run(&args) != 0 { cover("refused"); return; }
    let o1 = read("o1").unwrap();
    let un1 = read("un").unwrap_or_default();
    if which == first.len() {
        // the journal alone, and twice
        let r = run(&["merge", "-o", "o3", "o1"]);
        check("a merged journal merges on its own", r == 0);
        check("to itself", eq(&o1, &read("o3").unwrap_or_default()));
        let r = run(&["merge", "-o", "o4", "o1", "o3"]);
        check("and with itself", r == 0);
        check("to itself again", eq(&o1, &read("o4").unwrap_or_default()));
        return;
    }
    let f = first[which].0;
    remove("un");
    let r = run(&["merge", "-u", "un2", "-o", "o2", "o1", f]);
    check("merging an input again is accepted", r == 0);
    if r != 0 { return; }
    let o2 = read("o2").unwrap();
    if !un1.is_empty() { cover("with unmerged"); }
    let (a, c) = (parse(&o1), parse(&o2));
    check("outputs are journals", a.is_some() && c.is_some());
    compare("merged again", &c.unwrap(), &a.unwrap());
    if which + 1 == first.len() { check("the journal is byte for byte the same", eq(&o1, &o2)); }
}
pub fn h_again_two() { again_two(false); }
pub fn h_again_two_deep() { again_two(true); }
fn again_two(deep: bool) {
    warm();
    let mk = |s: &str, f: &[u8]| {
        let mut ps = Vec::new();
        for j in 0..1 + choose(&format!("{s}.n"), 2) {
            let mut p = P::new(&[b'A', b':', letter(&format!("{s}{j}.account"), b"xy")], &gbp(letter(&format!("{s}{j}.amount"), b"12")), &[&fp(letter(&format!("{s}{j}.fp"), f))]);
            if j == 0 {
                if flag(&format!("{s}.unknown")) { p.c.tags.push(b("unknown-account")); }
                if flag(&format!("{s}.balance?")) { p.balance = gbp(if deep { letter(&format!("{s}.balance"), b"12") } else { b'1' }); }
                p.c.text.push(vec![b'n', letter(&format!("{s}{j}.line"), b"12")]);
            } else if deep {
                p.c.text.push(vec![b'n', letter(&format!("{s}{j}.line"), b"12")]);
            } else { p.amount = b("GBP1.00"); }
            ps.push(p);
        }
        vec![T::new(&d(letter(&format!("{s}.date"), b"12")), s.as_bytes(), ps)]
    };
    let x = mk("a", b"ab");
    let y = mk("b", b"abc");
    let w = choose("again", 3) as usize;
    again(&[("a", x), ("b", y)], w);
}
pub fn h_again_three() {
    warm();
    let mk = |s: &str, f: &[u8], n: u8| {
        let mut ps = Vec::new();
        for j in 0..n {
            let mut p = P::new(&[b'A', b':', letter(&format!("{s}{j}.account"), b"xy")], b"GBP1", &[&fp(letter(&format!("{s}{j}.fp"), f))]);
            if j == 0 && flag(&format!("{s}.fp2?")) { p.c.add(&fp(letter(&format!("{s}.fp2"), b"de"))); }
            if j == 1 { p.amount = b("GBP-1"); }
            ps.push(p);
        }
        vec![T::new(&d(letter(&format!("{s}.date"), b"12")), s.as_bytes(), ps)]
    };
    let x = mk("a", b"ab", 1);
    let y = mk("b", b"ac", 2);
    let z = mk("c", b"ad", 2);
    let w = choose("again", 4) as usize;
    again(&[("a", x), ("b", y), ("c", z)], w);
}
/// The same command under two orders of hash-table iteration.
pub fn h_same_output() {
    warm();
    let mut src = Vec::new();
    let mk = |s: &str, base: u8| {
        let mut v = Vec::new();
        for k in 0..2u8 {
            let mut p = P::new(b"A:x", &[b'G', b'B', b'P', letter(&format!("{s}{k}.amount"), b"12")], &[&fp(base + 3 * k)]);
            if k == 0 { p.c.tags.push(fp(base + 1)); p.c.set(b"k1", b"v1"); p.c.set(b"k2", b"v2"); p.c.text.push(b("one")); p.c.text.push(b("two")); }
            let mut t = T::new(&d(letter(&format!("{s}{k}.date"), b"12")), &[base, k + b'0'], vec![p, P::new(b"B:x", b"", &[&fp(base + 3 * k + 2)])]);
            if flag(&format!("{s}{k}.source?")) { t.c.set(b"source-file", &[letter(&format!("{s}{k}.source"), b"pq")]); }
            v.push(t);
        }
        v
    };
    let x = mk("a", b'a');
    src.push(T::new(&d(b'1'), b"src", vec![P::new(b"A:x", b"GBP1", &[b"fp-y"]), P::new(b"A:y", b"GBP1", &[b"fp-z"])]));
    write("a", &render(&x));
    write("b", &render(&src));
    hash_order(choose("order", 8) as u64);
    let r1 = run(&["merge", "-u", "un1", "-o", "o1", "a", "b"]);
    hash_order(0);
    let r2 = run(&["merge", "-u", "un2", "-o", "o2", "a", "b"]);
    check("the same outcome", r1 == r2);
    check("the same merged output", read("o1") == read("o2"));
    check("the same unmerged output", read("un1") == read("un2"));
    if r1 == 0 { cover("merged"); }
    if read("un1").is_some() { cover("unmerged"); }
}
