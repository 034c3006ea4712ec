"""Writes DESIGN.md: what is the same for all properties, then each property from properties.jsonl
and props.py, then the findings and the planted changes."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
"C01": "Reference model of merge (harness/util.rs, `Model`), written from the property, not from the code: every posting of every input has to be in the merged or the unmerged output, with its fingerprints, exactly once. The program's two outputs are read by an independent reader and compared with the model's, field by field.",
"C02": "The merge is run, then run again with its own output as first input and one of the inputs (or all) once more; the second output has to equal the first, byte for byte.",
"C03": "The model decides for each posting whether it is the same as an existing one (by fingerprint, else by account, amount and date, else by amount and date with an unknown account); where postings end up is compared with the program's outputs.",
"C04": "As C03; a posting with several equally good counterparts has to come out in the unmerged output with a candidate tag for each of them, and nowhere else.",
"C05": "As C03, for what becomes of the fields of the two postings (status, account, amount, balance, comment, the tag unknown-account).",
"C06": "The model knows every reason to refuse a merge; the program has to refuse exactly then, with status 1, leaving no output behind, and old outputs as they were.",
"C07": "The merged journal is ordered by date, transactions of one date in the order they came in, new postings behind existing ones: compared with the model's order.",
"C08": "The merge is run under two orders of hash-table iteration (the hash of std's tables is a value the harness chooses, in eight rotations); both outcomes and outputs have to be equal byte for byte.",
"C09": "A second implementation of the comment syntax (harness/h_comment.rs) says what a comment holds; what generate-fingerprints (which reads and writes every comment) writes has to hold the same, be readable again, and be a fixed point. Merged comments are compared with the model's.",
"C10": "Source text and meaning are built side by side from the symbolic choices; what fmt writes is read by an independent reader and compared with the meaning; formatting the result again has to change nothing.",
"C11": "Journals with and without fingerprints; afterwards every posting has one, the ones that had one are untouched, new ones are well formed and differ, and nothing else has changed; a second run changes nothing.",
"C12": "Imports whose rows may coincide in any fields: all fingerprints in the output differ (SHA-1 of the symbolic row is an injective uninterpreted function, so equality of fingerprints is equality of what is hashed); importing a statement again, with later rows added, gives the earlier rows the fingerprints they had.",
"C13": "Every way to name a namespace with symbolic text: accepted exactly if it is made of the allowed characters and not empty; the tags written are `fp-ALGORITHM.VERSION.NAMESPACE-DIGEST` and readable as one tag.",
"C14": "The importer's transactions are computed a second time from the symbolic fields of the rows (harness/h_nationwide.rs) and compared with what is written, digests included (their input is built by the harness); damaged statements have to be refused.",
"C15": "A recogniser of GBP amounts written from the property; accepted exactly then, and the amount written has the same value.",
"C16": "As C14 for PayPal: rows, groups of rows, balances, signs, local dates in two zones with rules of their own (chrono-tz's tables are the program's; the harness has the offsets of the sampled days by hand).",
"C17": "A recogniser of UTC offsets and of tables of them; the offset is observed through the UTC time of imported rows.",
"C18": "The rendered page is a table of words whose positions, sizes and texts are symbolic; the transactions are computed a second time from where the words are (harness/h_pdf.rs). gm and tesseract are stand-ins the executor carries out (natively, shell scripts) which hand the table through, fail, or are missing.",
"C19": "Statement texts with arbitrary bytes in chosen places; what is written has to be a journal that reads back with the same texts.",
"C20": "Every combination of options and names; the set of files and directories afterwards has to be exactly what the options say.",
"C21": "An interpreter of rule tables (harness/h_rules.rs) applied to the model; compared with what apply-rules writes.",
"C22": "Tables over up to three files with symbolic names and jump targets: accepted exactly if every jump has a target, no chain is defined twice and there is a start; accepted tables run to an end or to a reported error.",
"C24": "The file system of the executor returns short counts, EINTR and EIO at symbolic calls; success has to mean complete output, a failed read or write an error.",
"C25": "Inputs damaged in every way, or refused for what they say; a command that fails must have changed nothing.",
"C26": "Arbitrary bytes in every file of every command, with overflow checks compiled in; the only allowed ends are success and a reported error.",
}
HEAD = open(os.path.join(V, "tools", "design-head.md")).read()
TAIL = open(os.path.join(V, "tools", "design-tail.md")).read()
out = [HEAD, "\n## The properties\n"]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); c = PROPS.get(p["id"])
    if not c: continue
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*Oracle.* " + HOW[p["id"]] + "\n")
    out.append("*Bounds.* " + c["bounds"] + ".\n")
    out.append("*Outside.* " + c["outside"] + ".\n")
    out.append("*Why tests cannot settle it.* " + p["why_tests_cant"] + "\n")
    out.append("*Harnesses.* quick: %s.%s\n" % (", ".join(c["quick"]), " Thorough, in addition: %s." % ", ".join(c["thorough"]) if c.get("thorough") else ""))
out.append("\n## Findings\n\nGenuine defects of the code, shown by replay on the real program. Entries of known-findings.json:\n")
for f in json.load(open(os.path.join(V, "known-findings.json")))["findings"]:
    out.append("- **%s** (%s): %s" % (f["id"], f["property"] + (", repaired by " + f["commit"] if f["status"] == "fixed" else ", recorded, not repaired"), f["what"].split(" ", 3)[3] if f["status"] == "fixed" else f["what"]))
out.append("\n" + TAIL)
out.append("| change | property | what it breaks | caught by |\n|---|---|---|---|")
cb = {}
cp = os.path.join(V, "tools", "caught.json")
if os.path.exists(cp): cb = json.load(open(cp))
for s in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "\\|"), cb.get(s, "")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
