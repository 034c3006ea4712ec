"""Which harnesses decide which property."""
# property -> quick and thorough harnesses, budgets in seconds, what has to be reached, bounds
MERGE = "files of 1-3 transactions with 1-3 postings each, at most 3 input files, any one or two things about them out of the ordinary (about 60 kinds, harness/h_twist.rs); 33 transactions against 33, 33 postings against 33 and 11 files with any one thing about any of them out of the ordinary (harness/h_volume.rs); two or three postings, in all arrangements over transactions and files, that differ in one of 16 fields, and in that one by a character, its case or its length (harness/h_alike.rs); accounts, amounts, balances, dates, tags and fingerprints from the small alphabets in harness/h_merge.rs, chosen so that every pair of fields can be equal or different"
OUT = "still longer journals, longer fields, more files; journal syntax merge does not interpret (posting status * is outside: the parser reads such lines as comments, see known-findings.json)"
PROPS = {
    "C01": dict(quick=["h_merge_sets", "h_merge_chain", "h_merge_many", "h_twist_any", "h_twist_mixed", "h_volume_files", "h_alike_merge"], thorough=["h_merge_one", "h_merge_order_deep", "h_twist_two", "h_volume_trns_deep", "h_volume_posts_deep"],
        covers=["merged by fingerprint", "merged by soft match", "ambiguous", "new posting", "posting added to an existing transaction"], bounds=MERGE, outside=OUT),
    "C02": dict(quick=["h_again_two", "h_again_three", "h_repeat_any", "h_alike_again"], thorough=["h_again_two_deep", "h_repeat_rest", "h_repeat_two", "h_volume_again", "h_alike_again_deep"], covers=["with unmerged", "refused"], bounds=MERGE, outside=OUT),
    "C03": dict(quick=["h_merge_one", "h_merge_amounts", "h_merge_many", "h_merge_chain", "h_twist_any", "h_volume_trns", "h_alike_merge"], thorough=["h_merge_sets", "h_twist_two", "h_volume_trns_deep", "h_volume_posts_deep"],
        covers=["merged by fingerprint", "merged by soft match", "new posting"], bounds=MERGE, outside=OUT),
    "C04": dict(quick=["h_merge_many", "h_merge_chain", "h_twist_any", "h_volume_alike", "h_alike_merge"], thorough=["h_merge_sets", "h_twist_two"], covers=["ambiguous"], bounds=MERGE, outside=OUT),
    "C05": dict(quick=["h_merge_one", "h_merge_amounts", "h_merge_comments", "h_twist_fields", "h_volume_files", "h_alike_merge", "h_alike_both"], thorough=["h_twist_mixed"], covers=["merged by fingerprint"], bounds=MERGE, outside=OUT),
    "C06": dict(quick=["h_merge_refused", "h_merge_sets", "h_merge_nowhere", "h_twist_any", "h_twist_rest", "h_volume_posts", "h_alike_merge"], thorough=["h_merge_refused_deep", "h_twist_two", "h_volume_posts_deep"],
        covers=["candidate tag", "no fingerprint", "fingerprint twice in a source", "fingerprints of different postings", "postings of different transactions", "two postings match the same posting", "unmerged and nowhere to put it"], bounds=MERGE, outside=OUT),
    "C07": dict(quick=["h_merge_order", "h_merge_dates", "h_merge_chain", "h_twist_rest", "h_volume_trns", "h_volume_posts", "h_volume_files"], thorough=["h_merge_order_deep", "h_twist_two", "h_volume_trns_deep"], covers=["new posting"], bounds=MERGE, outside=OUT),
    "C08": dict(quick=["h_same_output", "h_order_any", "h_order_rest", "h_alike_order"], thorough=["h_order_two", "h_volume_order", "h_alike_order_deep"], covers=["merged", "unmerged"], tries=60, bounds=MERGE + "; eight rotations of the order in which each hash table is iterated", outside=OUT),
    "C09": dict(quick=["h_comment_line", "h_comment_lines", "h_comment_chars", "h_comment_tags", "h_merge_comments", "h_comment_behind", "h_comment_values", "h_journal_rules_one", "h_journal_fpgen_one", "h_alike_both"], thorough=["h_comment_line_deep", "h_journal_rules"],
        covers=["a key-value tag", "several tags", "several pieces of text"], bounds="comments of one line with every text of 8 (thorough: 10) characters over {a, b, colon, blank}, of two lines with 3 and 4 such characters, every printable character inside a tag, key, value or text; any combination of five tags shorter and longer than the inline limit with up to two texts and two values; comments of a transaction and of a posting", outside="non-ASCII text; longer comments"),
    "C10": dict(quick=["h_fmt_header", "h_fmt_amounts", "h_fmt_prices", "h_fmt_postings", "h_fmt_items", "h_fmt_files", "h_fmt_known", "h_journal_fmt"], thorough=["h_fmt_items_deep"],
        covers=["standard output"], bounds="journals of up to 2 (thorough: 3) items (transaction, comment line, price, include, blank lines); every form of date, status, code, quantity, side of the commodity, lot price, price, balance, virtual posting, indentation, line ending and comment placement that ledger_parser accepts, with symbolic digits, letters and special characters in descriptions and accounts; two files and standard input", outside="longer journals; quantities of more than 23 digits; the inputs listed in known-findings.json"),
    "C11": dict(quick=["h_fpgen", "h_fpgen_two", "h_fpgen_fields", "h_journal_fpgen", "h_volume_fpgen"], thorough=["h_fpgen_deep"],
        covers=["needs one", "already has one"], bounds="journals of 1-2 transactions with 1-3 postings, each with or without a fingerprint (at any place in its comment, also on a second comment line), tags that only look like one (symbolic letters around fp-), every optional field; a second run over the result; 33 postings, any one of them with anything out of the ordinary", outside="longer journals; collisions of the random number generator, which stays uninterpreted (each value it returns is different)"),
    "C12": dict(quick=["h_nw_several_six", "h_nw_several_five", "h_nw_dates", "h_nw_legacy", "h_pp_distinct", "h_pp_groups", "h_pipeline_nw", "h_pdf_lines", "h_pdf_pages", "h_volume_nw", "h_volume_pp", "h_rows_nw_one", "h_rows_pp_one"], thorough=["h_nw_several_deep", "h_pp_groups_deep", "h_rows_nw", "h_rows_pp"],
        covers=["several rows in a transaction"], bounds="statements of 1-4 rows whose days, descriptions, amounts, directions and balances are symbolic and may coincide (equal rows included), imported alone and again with later rows appended; PayPal rows with symbolic ids, names, clocks, zones and amounts; 33 rows, alike except for anything about any one of them", outside="longer statements; collisions of SHA-1 (modelled as injective); the PayPal cases listed in known-findings.json"),
    "C13": dict(quick=["h_ns_fixed", "h_ns_name", "h_ns_lookup", "h_ns_generated", "h_ns_bad", "h_ns_paypal", "h_fpgen", "h_pdf_namespace"], thorough=[],
        covers=["accepted", "refused"], bounds="namespaces of up to 3 printable characters given directly, of any 2 bytes as an account name, of 2 printable characters in a lookup table, generated from 40 names covering every base64 character and from any 2 letters; PayPal namespaces of up to 3 characters; any random value for generated fingerprints", outside="longer namespaces"),
    "C14": dict(quick=["h_nw_six", "h_nw_five", "h_nw_refused", "h_nw_text", "h_nw_both", "h_rows_nw_one", "h_rows_nw_mixed", "h_volume_nw"], thorough=["h_nw_several_deep", "h_rows_nw"],
        covers=["refused"], bounds="both layouts; a row with any day of 1950-2099, any digits, any presence of the amount fields; 2 bytes of any text in each text field; damaged headers and missing columns; statements of 1-4 rows with any two things about rows, texts, quoting, blanks, line ends and options out of the ordinary; 33 rows", outside="longer statements and fields"),
    "C15": dict(quick=["h_nw_amount", "h_nw_digits"], thorough=["h_nw_amount_deep"],
        covers=["an amount", "not an amount", "a large amount is refused", "a large amount is read"], bounds="every amount text of up to 7 (thorough: 8) characters over pound sign, minus, plus, point, comma, blank, digits and letters; every run of digits up to and beyond what an amount can hold", outside="longer texts; scanned (PDF) amounts, which C18 covers"),
    "C16": dict(quick=["h_pp_row", "h_pp_balance", "h_pp_groups", "h_pp_amount", "h_pp_digits", "h_pp_refused", "h_pp_local", "h_rows_pp_one", "h_rows_pp_mixed", "h_volume_pp"], thorough=["h_pp_groups_deep", "h_pp_amount_deep", "h_pp_local_deep", "h_rows_pp"],
        covers=["several rows in a transaction", "nobody has a name", "accepted", "refused"], bounds="1-3 rows (thorough: 4) that form any groups, with symbolic names, ids, types, currencies, signs, digits and balances; amount texts of up to 7 (thorough: 8) characters over digits, sign, point, comma, exponent and blanks; local dates in zones with and without daylight saving around midnights and changes of the clock; 1-4 rows with any two things about rows, texts, quoting, line ends, column order and options out of the ordinary; 33 rows in groups of 1, 3 and 33", outside="longer statements"),
    "C17": dict(quick=["h_tz_offset", "h_tz_text", "h_tz_table", "h_tz_bad", "h_volume_zones"], thorough=[],
        covers=["accepted", "refused", "a zone twice", "found", "unknown"], bounds="every offset of up to 6 characters over signs, digits, colon, blanks and letters, with and without UTC in front; tables of two rows with symbolic names and offsets; missing columns; tables of 33 zones", outside="longer tables"),
    "C18": dict(quick=["h_pdf_place", "h_pdf_lines", "h_pdf_gap", "h_pdf_amount", "h_pdf_date", "h_pdf_text", "h_pdf_utf8", "h_pdf_structure", "h_pdf_fields", "h_pdf_pages", "h_pdf_many", "h_pdf_header", "h_pdf_account", "h_pdf_namespace", "h_pdf_programs", "h_rows_pdf_one", "h_rows_pdf_page", "h_pdf_hundreds"], thorough=["h_pdf_lines_deep", "h_pdf_amount_deep", "h_rows_pdf"],
        covers=["accepted", "refused", "an amount", "not an amount", "below zero"], bounds="a word of any position (3 digits) and width (2 digits) anywhere on a line; three (thorough: four) lines of any of twelve kinds with symbolic texts; lines of any vertical position and height; amounts of up to 4 (thorough: 5) characters over digits, comma, point, minus; every day of twelve months in eight years; words of any 3 printable characters, some non-ASCII and invalid ones; any of the last ten rows of the table of words left out, repeated, exchanged with the next, or with any other level or index of one digit; fields that are no numbers, too few or too many; up to 3 pages of five kinds, up to 12 pages, and 99 to 120 pages; any character of the header or of the account number changed, columns of any position; programs that fail, are missing or write nothing; one page (thorough: one or two) with any two of 22 changes to any of its lines", outside="the programs themselves: gm and tesseract are stand-ins that hand the rendered page through; words that are empty; larger tables"),
    "C19": dict(quick=["h_text_nw", "h_text_nw_deep", "h_text_pp", "h_text_pp_deep", "h_text_pp_status", "h_text_pdf", "h_rows_nw_one", "h_rows_pp_one"], thorough=[],
        covers=["text", "not text", "not a currency", "a known oddity"], bounds="every 2-3 bytes at the beginning, inside and at the end of each text field of a record", outside="longer fields; the inputs listed in known-findings.json, which the parser of the journal reads differently"),
    "C20": dict(quick=["h_out_path", "h_out_name", "h_out_stdout", "h_out_namespace", "h_out_refused", "h_out_directory"], thorough=[],
        covers=["written", "no such directory"], bounds="names in six places (existing and missing directories, two levels, named after the namespace) with and without %FP_NS% once, twice and incomplete, any two further characters; any two-letter namespace; every combination of the options; old files in the place; input that is refused", outside="links, permissions, other file systems"),
    "C21": dict(quick=["h_rules_actions", "h_rules_sequence", "h_rules_predicates", "h_rules_trees", "h_rules_chains", "h_rules_return", "h_rules_postings", "h_rules_text", "h_rules_letters", "h_journal_rules", "h_rules_many", "h_rules_alike", "h_rules_near"], thorough=["h_rules_chains_deep"],
        covers=["applied"], bounds="tables of up to 3 chains with up to 3 rules each; every predicate (nested two deep), action (nested two deep) and result; symbolic accounts, payees, tags and texts of 1-3 characters; journals of up to 3 postings; tables of 25 rules in one chain or in 25 chains applied to 24 postings; rules that look for, or change, almost what the posting, another posting or the transaction has (24 ways of being almost the same)", outside="larger tables; regular expressions beyond the ones in harness/h_rules.rs"),
    "C22": dict(quick=["h_rules_load", "h_rules_never", "h_rules_include", "h_rules_chains", "h_rules_return", "h_rules_many", "h_rules_names"], thorough=["h_rules_chains_deep"],
        covers=["accepted", "refused", "a chain twice", "a jump to nowhere", "no start", "jumps without end", "an error is reported"], bounds="tables of up to 3 chains with symbolic names and jump targets, jumps at the top and inside lists of actions, chains over up to 3 included files; endless jumps; names of chains that are almost the same", outside="larger tables"),
    "C24": dict(quick=["h_faults_files", "h_faults_stdout"], thorough=["h_faults_deep"],
        covers=["success", "an input could not be read", "an output could not be written"], bounds="each command that reads text files (fmt, generate-fingerprints, apply-rules, merge, each kind of import), to files and to standard output, with and without old files in the place, input lines of 3 and 3000 characters; any two (thorough: three) faults among short, interrupted and failing reads, writes and openings, at any of the calls", outside="faults inside the programs import nationwide-pdf runs (C18 has failing ones); errors that close() reports; more faults in one run"),
    "C25": dict(quick=["h_fails_kinds", "h_fails_late"] + ["h_%s_%s" % (h, n) for h in ("more", "less") for n in ("fmt", "fpgen", "rules", "merge", "nationwide", "paypal", "pdf")] + ["h_faults_files"], thorough=["h_two_%s" % n for n in ("fmt", "fpgen", "rules", "merge", "nationwide", "paypal", "pdf")],
        covers=["refused", "accepted", "an input could not be read"], bounds="each command above, each of its input files missing, a directory, not text, empty, cut off, of another kind, with any one byte added anywhere or any one left out (thorough: any two adjacent bytes replaced), or failing to be read; with and without old output files; standard input and output", outside="outputs that cannot be written"),
    "C26": dict(quick=["h_byte_%s" % n for n in ("fmt", "fpgen", "rules", "merge", "nationwide", "paypal", "pdf")] + ["h_panic_journal", "h_panic_numbers", "h_panic_rules", "h_panic_nested", "h_panic_pp_date", "h_panic_pp_clock", "h_panic_pp_text", "h_panic_pp_amount", "h_panic_pp_digits", "h_panic_zones", "h_panic_nationwide", "h_panic_pdf", "h_rules_never"],
        thorough=["h_two_%s" % n for n in ("fmt", "fpgen", "rules", "merge", "nationwide", "paypal", "pdf")] + ["h_panic_rules_deep"],
        covers=["accepted", "refused", "the parser panics"], bounds="each command above with any one byte (thorough: any two adjacent bytes) of any of its input files replaced by any other; any three characters in each field of a journal; dates and amounts beyond every limit; any two-character regular expression, replacement, name and text in a rule, and any of the special characters; nesting up to 1000 deep; dates, times, zones and amounts of statements beyond the limits", outside="larger inputs; the journals of known-findings.json on which ledger_parser panics"),
}
NOT_APPLICABLE = {}
