import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE+'/properties.jsonl')]
T = "contract-based deductive verification: contracts woven into the functions extracted from /repo/src on every run, every obligation discharged by Verus/Z3"
NOTE = {
 "C01": "All inputs, no bound: parse_rule_name, parse_expr, parse_and and parse_or return what the PEG semantics (spec function sem over text, rules and position) gives; pure lemmas derive the statement from sem. Partial correctness (termination is C11).",
 "C02": "All inputs: parse_repeat's loop against the Rep task of sem, with lemmas for the bounds. Minimum at most isize::MAX.",
 "C03": "All inputs: parse_not returns the state it was given and no node, or fails at its own position.",
 "C04": "All inputs: parse_literal, parse_match, parse_dot, parse_eof and get_char against character-sequence specifications (all Unicode).",
 "C05": "All inputs: parse (and its callees) against answer(sem(main)).",
 "C06": "All inputs: the yield of the returned tree equals the text, by a lemma over sem and the contract of parse.",
 "C07": "All inputs: from_status and the position updates of get_char against row/column/line specifications over the characters.",
 "C08": "All inputs: the error of sem carries priority and description; lemmas show a critical error is never replaced and only arises at error elements or undefined rules.",
 "C09": "All inputs: the best error of the choice loop is the deepest, latest one.",
 "C10": "All inputs: parse_debug has the same contract as parse; traces are specified separately.",
 "C11": "All rule sets and texts for which no rule is entered again at the same place of the text (nolr; a lemma derives it from the usual criterion, read off the rules: nullability and no cycle of leading rules): every recursive call and every loop of the parser has a measure that decreases (text left, rules that can still be entered here, structure of the expression; iterations left). Lemmas over the semantics give the soundness of nullability.",
 "C12": "All inputs: no slice, arithmetic, unwrap, index or panic obligation is left open in the parser functions, for rule sets with minima up to isize::MAX. Stack depth is outside.",
 "C13": "All trees and name lists.", "C14": "All trees and name lists.", "C15": "All trees.",
 "C16": "All trees; balance and injectivity are lemmas over the specification that flatten meets.",
 "C19": "All texts: every function of src/peg/mod.rs that turns the flattened syntax tree into rules is under contract against meaning functions over syntax trees (m_main and below: precedence, grouping, order, bounds, names, modules); rules_from_peg is composed from these and from the contracts of parse, compact, prune, flatten and the built-in grammar. A lemma (shape.vx) shows that every text the grammar accepts has a meaning, unless it defines a name twice, which the contract leaves open. Total correctness: recursion has a measure.",
 "C20": "All literals: consume_literal_string and everything below it against m_lit/m_esc/m_noesc (escape by escape, hexadecimal by value) over the syntax tree of the literal. Total correctness: recursion has a measure.",
 "C21": "All classes: consume_match, consume_mchars and consume_mbetween against m_match over the syntax tree of the class. Total correctness: recursion has a measure.",
 "C22": "All rule sets: the text rust_from_rules makes, read back by the spec reader rd_rules (Rust's lexical rules for string, character and integer literals; the syntax of the library's macros), gives one entry per rule with the same expression; and the library's own macros, expanded by the extractor, build exactly the expression each is read as, for all arguments (lists of 1 to 3 elements, classes of 0 to 2 ranges, 1 to 3 rules: the repetition of a macro pattern is taken to be uniform). Total correctness (structure of the expression).",
 "C23": "The rules built by rules::parse_peg equal, rule by rule and element by element, those of the text published in peg2code.rs; the text is read on every run by a reader of its own (replay read_peg, trusted) and turned into one predicate per rule (pegspec.py, trusted).",
 "C24": "All texts: rules_from_peg returns rules exactly when the published grammar, as a PEG, matches the whole text, and otherwise Error::Parser with the error of that parse; no slice, index, unwrap or panic obligation is left open. Composed from the contracts of parse, compact, prune, flatten, the built-in grammar and every function of src/peg/mod.rs below rules_from_flat_ast, and from lemmas that every syntax tree of the published grammar is one the reader takes (shape.vx). Total correctness: parsing by the published grammar meets nolr (no left recursion, lemma_g_nolr), the reader's recursion is measured by what is left of the flattened tree.",
 "C17": "All node lists, names and values, 17 accessors.", "C18": "All rule sets and expressions; the hash map is the trusted std one.",
}
TAIL = " Trusted: the std/idata contracts of overlays/prelude.rs, the extraction, Verus and Z3. A failing obligation is accompanied by a randomised search on the real library for an input; where the verifier cannot process a changed function, only that search is left and the evidence says undecided."
NA = json.load(open(HERE+'/tools/na.json'))
m = {
 "version": 1,
 "setup_cmd": "bash /verif/setup.sh",
 "hooks": {"guard": "none", "enable": "no hooks: the functions are extracted from the source text; the searcher uses the public API", "source_commits": []},
 "checks": [{"property": p["id"], "quick_cmd": "python3 /verif/check.py " + p["id"], "thorough_cmd": "env VERIF_TIER=thorough python3 /verif/check.py " + p["id"],
             "technique": T, "level": "proof", "level_note": NOTE[p["id"]] + TAIL} for p in props if p["id"] in NOTE],
 "not_applicable": [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in NOTE],
}
json.dump(m, open(HERE+'/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "claimed")
