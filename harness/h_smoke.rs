//! Engine self-test.
use super::vf::*;

pub fn h_smoke_fmt() {
    reset();
    write("a.ledger", b"2020/01/01 * foo  ; :x:\n  A:B   GBP 1.00\n  C\n\n");
    let r = run(&["fmt", "a.ledger"]);
    note(&stdout());
    note(&read("a.ledger").unwrap());
    check("exit", r == 0);
}
pub fn h_smoke_sym() {
    reset();
    let mut t = b"2020/01/01 * foo".to_vec();
    t.extend(bytes("desc", 3, TEXT));
    t.extend(b"\n  A:B   GBP 1.00\n  C\n\n");
    write("a.ledger", &t);
    let r = run(&["fmt", "a.ledger"]);
    if r != 0 { cover("rejected"); return; }
    let a = read("a.ledger").unwrap();
    let r = run(&["fmt", "a.ledger"]);
    check("again", r == 0);
    let b = read("a.ledger").unwrap();
    check("same", a == b);
}
pub fn h_smoke_merge() {
    reset();
    write("a.ledger", b"2020-01-01 * foo\n  A:B  GBP 1.00\n  ; :fp-aaa:\n  C  GBP -1.00\n  ; :fp-bbb:\n\n");
    write("b.ledger", b"2020-01-01 * foo\n  A:B  GBP 1.00\n  ; :fp-aaa:\n  D  GBP -1.00\n  ; :fp-bbb:\n\n2020-01-02 * foo\n  A:B  GBP 1.00\n  ; :fp-ddd:\n  D  GBP -1.00\n  ; :fp-eee:\n");
    let r = run(&["merge", "-o", "o.ledger", "a.ledger", "b.ledger"]);
    note(&read("o.ledger").unwrap_or_default());
    check("exit", r == 0);
}
pub fn h_smoke_nw() {
    reset();
    write("a.csv", b"\"Account Name:\",\"FlexAccount ****12345\"\n\"Account Balance:\",\"\xa3100.00\"\n\"Available Balance: \",\"\xa3100.00\"\n\n\"Date\",\"Transaction type\",\"Description\",\"Paid out\",\"Paid in\",\"Balance\"\n\"01 Jan 2020\",\"ATM Withdrawal\",\"foo\",\"\xa310.00\",\"\",\"\xa3100.00\"\n");
    let r = run(&["import", "-o", "o.ledger", "nationwide-csv", "a.csv"]);
    note(&read("o.ledger").unwrap_or_default());
    check("exit", r == 0);
}
pub fn h_smoke_rules() {
    reset();
    write("a.ledger", b"2020-01-01 * foo\n  A:B  GBP 1.00\n  C  GBP -1.00\n\n");
    write("r.ron", b"Table({ \"start\": Chain([ Rule(predicate: Account(Equals(\"C\")), action: SetAccount(\"D\"), result: Continue) ]) })");
    let r = run(&["apply-rules", "-o", "o.ledger", "a.ledger", "table", "r.ron"]);
    note(&read("o.ledger").unwrap_or_default());
    note(&read("<stderr>").unwrap_or_default());
    check("exit", r == 0);
}
