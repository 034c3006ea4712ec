#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long JSON lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})

M = "src/merge/merger.rs"; MP = "src/merge/posting.rs"; MT = "src/merge/transaction.rs"
MS = "src/merge/sources.rs"; MC = "src/merge/cmd.rs"; MM = "src/merge/matchset.rs"

prop("C01", "merge loses no posting and invents none",
 "After a successful merge, every input posting is represented exactly once: either its transaction was set aside whole for the unmerged output, or the posting's fingerprints, amount, balance and comment sit on exactly one posting of the merged output. The merged and unmerged outputs contain no posting, tag or amount that no input had (apart from the candidate-/source tags merge documents).",
 ["inputs", "histories"],
 "every list of input transactions (dates, accounts, amounts, balances, comments and tags), split over any number of successive source sets, within the stated sizes",
 "unit tests merge about a dozen hand-written pairs of journals; losing or duplicating a posting needs particular combinations of fingerprint and soft matches across several postings, which they do not enumerate.",
 [M, MP, MT], [("two-phase merge: pending actions, then apply", M), ("arena of postings, indices by fingerprint and by date", MP)],
 [("IndexedPostings", "destination postings indexed by fingerprint and by date", MP), ("IndexedTransactions", "destination transactions by date", MT)],
 ["merge -o output", "merge -u output"])

prop("C02", "re-merging what was already merged changes nothing",
 "Merging a journal that merge itself produced with any of the inputs it was produced from yields the same journal again: nothing is added, nothing is reported unmerged that was merged before, and no field changes (except that key-value tags take the values of the input merged last, as documented). Re-importing a posting that is already in the journal is recognised by its fingerprint.",
 ["histories", "inputs"],
 "every journal and every re-merge of inputs into their own merge result, within the stated sizes",
 "tests check individual merges, not merge composed with itself; a field or index that is dropped on the first merge only shows on the second.",
 [M, MP, MC], [("fingerprint lookup before soft match", MP), ("fingerprints indexed when a posting is added or merged into", MP)],
 observe=["merge -o output"])

prop("C03", "matching follows the documented rules exactly",
 "A source posting merges into the destination posting that carries one of its fingerprints; failing that, into the only destination posting with the same date, the same amount, an equal balance if both have one, and an equal account unless one of them is tagged unknown-account; failing that it becomes a new posting. New postings go into the transaction of the first sibling posting that matched, otherwise the whole transaction is added as a new one. Whether several postings of one source transaction belong together is decided the same way: if they match postings of different transactions the input is refused.",
 ["inputs", "histories"],
 "every pair of destination and source transactions over symbolic dates, amounts, commodities, balances, accounts, tags and fingerprints, within the stated sizes",
 "the rule is a conjunction of conditions on five fields of two postings plus a fallback order; tests cover a handful of cells of that table.",
 [M, MP, MM], [("find_matching_postings", MP), ("MatchSet", MM)], observe=["merge -o output"])

prop("C04", "an ambiguous match is never guessed",
 "When a source posting soft-matches several destination postings, it is not merged: its whole transaction goes to the unmerged output with one candidate- tag for each possible destination, naming a fingerprint that destination posting carries, and is otherwise unchanged. The merged journal is exactly what it would have been without that transaction.",
 ["inputs", "histories"],
 "every destination with 0..3 postings that may match and every source transaction, within the stated sizes",
 "tests exercise one two-candidate case with one posting per transaction.",
 [M, MP, MM], [("MergeActionsAccumulator: one ambiguous posting leaves the transaction unmerged", M)], observe=["merge -u output", "merge -o output"])

prop("C05", "merging into a posting keeps what the journal already says",
 "When a source posting is merged into an existing posting, the existing amount, balance and account stay; the account is replaced only when the existing posting is tagged unknown-account and the source is not, and then the tag goes. Flag tags and comment lines become the union, key-value tags become the union with the source's values, a missing balance is filled in from the source, and a status never goes back.",
 ["inputs"],
 "every pair of matching postings over status, account, balance, tags, comment lines and unknown-account tags",
 "tests sample a few pairs; the guarantee is over the product of all field combinations.",
 [MP, "src/comment.rs"], [("posting merge", MP), ("Comment::merge_from", "src/comment.rs")], observe=["merge -o output"])

prop("C06", "bad merge input is refused and writes nothing",
 "Input that cannot be merged safely is refused with an error: a posting without any fingerprint, a posting still carrying a candidate- tag, two postings of one source set sharing a fingerprint, one posting whose fingerprints match different destination postings, one transaction whose postings match postings of different transactions, or two postings of one source set matching the same destination. A refused merge leaves the output files exactly as they were; so does a merge with unmerged transactions and no place to put them.",
 ["inputs", "histories"],
 "every input journal that breaks one of the documented rules, at any position and in any source set, within the stated sizes",
 "tests check each error once in isolation and never look at the output files.",
 [M, MP, MC], [("make_pending / check_pending before apply", M), ("outputs opened last", MC)], observe=["exit status", "output files"])

prop("C07", "output order is by date and otherwise stable",
 "The merged journal is in non-decreasing date order, and transactions of one date keep the order in which they were added; postings keep their order within their transaction. Each input file is split by its transactions' source tags (default: the file itself), sources are merged as separate sets, and source tags never remain in the merged output.",
 ["inputs", "histories"],
 "every order of dates and source tags over the inputs, within the stated sizes",
 "tests use one or two dates and never interleave sources.",
 [MT, MS, MC], [("IndexedTransactions::into_iter", MT), ("sources::read_ledger_file / strip_sources", MS)], observe=["merge -o output"])

prop("C08", "the same inputs always give the same output",
 "What merge writes (merged and unmerged output, and whether it fails) depends only on its input files and arguments, not on hash seeds or any other per-process randomness.",
 ["configurations", "inputs"],
 "every pair of hash seeds (as orders of hash-table iteration) and every input within the stated sizes",
 "each test process has one random hash seed per map and asserts set-like facts; an order leak shows up only across runs.",
 [MP, M, MS], [("sorting of sources and dates", MS)], observe=["merge -o output", "merge -u output"])

prop("C09", "comments survive parsing and formatting",
 "Parsing a comment into tags, key-value tags and text lines and formatting it back loses none of them: parsing the formatted text gives the same tags, values and lines. Merging one comment into another gives the union of both, without duplicates; where both have a value for a tag, the value of the comment merged in.",
 ["inputs"],
 "every comment text up to the stated length over the alphabet of tag syntax characters, letters and blanks",
 "the grammar is a set of regular expressions over free text; tests list 10-odd strings.",
 ["src/comment.rs"], [("Comment::from_opt_comment / into_opt_comment / merge_from", "src/comment.rs")], observe=["any command's journal output"])

prop("C10", "fmt keeps the journal's meaning and is idempotent",
 "Formatting a journal in place keeps every transaction, posting, date, status, account, amount, commodity, balance, tag and comment; a second run leaves the file byte-for-byte as the first wrote it.",
 ["inputs"],
 "every journal of the supported syntax within the stated shapes and hole sizes",
 "no test runs fmt at all.",
 ["src/fmt.rs", "src/filespec.rs"], [("read_ledger_file / write_ledger_file", "src/filespec.rs")], observe=["the formatted file"])

prop("C11", "generate-fingerprints adds only what is missing",
 "generate-fingerprints gives each posting without a fingerprint exactly one new, unique, well-formed fingerprint tag, leaves postings that have one alone, and changes nothing else in the journal. Running it again changes nothing.",
 ["inputs", "configurations"],
 "every journal within the stated shapes and every value of the random source",
 "no test runs it; the random value is never varied.",
 ["src/fpgen.rs", "src/fingerprint.rs"], [("update_transactions", "src/fpgen.rs"), ("is_fingerprint", "src/fingerprint.rs")], observe=["the rewritten file"])

prop("C12", "distinct records get distinct fingerprints, equal imports equal ones",
 "Importing the same statement again, alone or with rows of later dates appended, gives each posting the fingerprint it had before. Within one import no two postings share a fingerprint, and records that differ in any fingerprinted field get different fingerprints (given that the hash does not collide). (PayPal: the posting of each row has a fingerprint; its counterpart has one only as the legacy tag.)",
 ["inputs", "histories"],
 "every pair of records / statements within the stated sizes; SHA-1 is treated as collision-free",
 "fingerprint tests pin a few golden values; distinctness is a statement about all pairs of inputs.",
 ["src/fingerprint.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs"],
 [("FingerprintBuilder", "src/fingerprint.rs"), ("Accumulator encodings", "src/fingerprint.rs")], observe=["fp- tags of import output"])

prop("C13", "fingerprint tags are well formed and recognised",
 "Every fingerprint that import generates is a tag of the form fp-ALGORITHM.VERSION.NAMESPACE-HASH, and every one that generate-fingerprints makes is fp-uuidb64- and 22 characters of URL-safe base64; written to a journal and read back it is still one tag and is recognised as a fingerprint. A namespace, wherever it comes from (option, account name, lookup table), may have letters, digits, `_`, `+` and `/` only; any other is refused and nothing is written.",
 ["inputs"],
 "every user namespace string up to the stated length and every hash value",
 "tests check three or four namespaces.",
 ["src/fingerprint.rs", "src/tags.rs", "src/comment.rs"], [("make_prefix / FingerprintBuilder::build_tag", "src/fingerprint.rs")], observe=["fp- tags"])

prop("C14", "Nationwide CSV rows become exact balanced transactions",
 "Each statement row becomes one transaction with the row's date, description and type, a posting of exactly the paid-in or minus the paid-out amount to the bank account with the row's balance, and a posting of exactly the opposite amount to an unknown account. Rows with both or neither of paid in and paid out, and files with the wrong headers, are refused.",
 ["inputs"],
 "every row with symbolic digits, signs, dates and presence of fields, within the stated sizes",
 "golden tests import two small files.",
 ["src/importers/nationwide_csv.rs", "src/importers/nationwide.rs", "src/importers/util.rs"],
 [("Record deserialisation", "src/importers/nationwide_csv.rs"), ("form_postings", "src/importers/nationwide.rs")], observe=["import nationwide-csv output"])

prop("C15", "GBP amounts are read exactly or refused",
 "An amount text is accepted only if it is a pound sign, an optional minus, digits, a point and two digits of pence, and then its value is exactly that number of pounds and pence. Anything else, including amounts too large to represent, is refused rather than altered.",
 ["inputs"],
 "every amount string up to the stated length over digits, sign, pound sign, point, comma and letters",
 "tests try five amounts; partial matches of a pattern inside junk and long digit strings are not among them.",
 ["src/importers/nationwide_csv.rs", "src/importers/nationwide_pdf.rs"], [("GbpValueVisitor", "src/importers/nationwide_csv.rs")], observe=["amounts of import output"])

prop("C16", "PayPal CSV rows become exact transactions at the right date",
 "Each run of PayPal rows with the same date and time becomes one transaction, dated with the local date and described by the first name among them, with one posting per row carrying exactly the row's gross amount and currency, its balance, and its transaction id, name and type as tags, each followed by the posting of the opposite amount to an unknown account. Every row is imported exactly once.",
 ["inputs"],
 "every sequence of rows with symbolic amounts, dates, currencies and ids within the stated sizes",
 "one golden file.",
 ["src/importers/paypal_csv.rs"], [("group_by / form_postings", "src/importers/paypal_csv.rs")], observe=["import paypal-csv output"])

prop("C17", "time zone offsets are read exactly or refused",
 "A UTC offset in a time zone table is accepted only in the documented form, and then equals its sign times hours and minutes; an abbreviation resolves to the offset its table row gives it, and unknown or duplicate abbreviations are errors.",
 ["inputs"],
 "every offset string up to the stated length and every table of two rows",
 "tests read one table with two rows.",
 ["src/tzabbr.rs"], [("TzAbbrDB::from_reader", "src/tzabbr.rs")], observe=["import paypal-csv dates"])

prop("C18", "scanned statement tables keep words, order and structure",
 "Reading OCR output rebuilds the page, block, paragraph, line and word structure exactly: every word appears once, in order, in the line it was given for; inconsistent structure is refused. Statement lines become transactions with the date in force, the full description and the exact amounts of the columns they stand in. The PDF is handed to the two programs page by page in order; when one of them fails, or what comes out is not a statement, nothing is imported.",
 ["inputs"],
 "every recognised table within the stated sizes: symbolic levels, indexes, positions, words, lines and pages",
 "unit tests use fixed small tables.",
 ["src/importers/tesseract.rs", "src/importers/nationwide_pdf.rs"], [("structure stack", "src/importers/tesseract.rs"), ("line interpretation", "src/importers/nationwide_pdf.rs")], observe=["import nationwide-pdf output"])

prop("C19", "imported records cannot break out of their transaction",
 "Whatever text a statement contains, the journal that import writes parses again into the same number of transactions with the same dates, amounts, accounts and tags: no field content can add, remove or alter postings or transactions.",
 ["inputs"],
 "every text field up to the stated length, any bytes",
 "golden tests contain only tame descriptions.",
 ["src/importers/cmd.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/comment.rs"], [("output formatting", "src/filespec.rs")], observe=["import output"])

prop("C20", "import writes to exactly the path the options name",
 "import writes its journal to the file named by --output; with --sub-output-path, the text %FP_NS% in that name stands for the fingerprint namespace. Missing parent directories are created only when --make-parent-dirs is given, and both options are refused for standard output. It touches no other file.",
 ["inputs", "configurations"],
 "every combination of the options and every path text up to the stated length",
 "tests cover path substitution with a few strings and never run the command.",
 ["src/importers/cmd.rs", "src/importers/util.rs"], [("output path substitution", "src/importers/cmd.rs")], observe=["files written"])

prop("C21", "rules do exactly what the table says",
 "Applying a rule table to a posting gives the result of running the table's rules top to bottom from the start chain: the actions of exactly those rules whose predicate holds are performed in order (a jump to a chain is an action that runs that chain and then carries on), and the result of each matching rule decides what comes next: Continue goes on with the next rule, Return ends the chain. Actions change only the field they name.",
 ["programs", "inputs"],
 "every rule table within the stated shape (symbolic predicates, actions and results) and every posting",
 "tests run some 15 fixed tables.",
 ["src/rules/table/mod.rs", "src/rules/table/predicate.rs", "src/rules/processor.rs"], [("Chain/Rule interpreter", "src/rules/table/mod.rs"), ("Predicate::is_match", "src/rules/table/predicate.rs")], observe=["apply-rules output"])

prop("C22", "a rule table that loads is safe to run",
 "A rule table is accepted only if every chain it can jump to exists, each chain is defined once over all included files, and it has a start chain; a table that is accepted can be applied to any posting without crashing, and application always ends: chains that jump to each other without end are reported as an error.",
 ["programs"],
 "every rule table of the stated number of chains and rules with symbolic names and jump targets",
 "tests load two bad tables.",
 ["src/rules/table/mod.rs", "src/rules/table/source.rs"], [("Table::validate", "src/rules/table/mod.rs"), ("source loading", "src/rules/table/source.rs")], observe=["apply-rules exit status"])

prop("C24", "success means the whole output was written",
 "If a command exits successfully, each of its output files (or standard output) holds the complete output and nothing else, whatever short or interrupted reads and writes the system reported; if a read or write failed, the command exits with an error. Short reads and short or interrupted writes alone are no reason to fail.",
 ["fault_sequences", "inputs"],
 "every sequence of write results (full, short, interrupted, error) up to the stated number of faults",
 "no test injects a fault.",
 ["src/filespec.rs", "src/importers/cmd.rs", "src/merge/cmd.rs"], [("write_file", "src/filespec.rs")], observe=["exit status", "output files"])

prop("C25", "a command that fails on its input leaves files as they were",
 "When a command fails because an input cannot be read, decoded or parsed, or because the data is invalid, no output file has been created, truncated or changed, nothing has gone to standard output, and files named for in-place rewriting (fmt, generate-fingerprints) keep their content, all of them.",
 ["inputs", "fault_sequences"],
 "every input within the stated shapes, in every command, with the failure at any input file",
 "no test runs a whole command.",
 ["src/filespec.rs", "src/fmt.rs", "src/fpgen.rs", "src/merge/cmd.rs", "src/rules/cmd.rs", "src/importers/cmd.rs"], [("read everything before the writer is opened", "src/filespec.rs")], observe=["files", "exit status"])

prop("C26", "no input makes a command panic",
 "Whatever bytes a journal, rule table, statement or time zone table contains, each command ends with success or with a reported error; it never panics, overflows or runs forever.",
 ["inputs"],
 "every input of the stated shapes with arbitrary bytes in the stated holes",
 "tests feed well-formed data.",
 ["src/comment.rs", "src/internal.rs", "src/importers/nationwide_csv.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs", "src/importers/tesseract.rs", "src/tzabbr.rs"], [("Result-based error handling", "src/main.rs")], observe=["exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
