import json
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
EX="src/parser/expression/mod.rs"; AT="src/parser/atom/mod.rs"; PM="src/parser/mod.rs"; LIB="src/lib.rs"
AST="src/ast/mod.rs"; FL="src/ast/flat.rs"; PEG="src/peg/mod.rs"; RU="src/peg/rules.rs"; GC="src/peg/gcode.rs"; P2C="src/peg/peg2code.rs"
ps=[
P("C01","Sequence and ordered choice follow PEG semantics",
 "A sequence matches exactly when its elements match one after another, each starting where the previous one stopped, and it yields their nodes in order; an empty sequence matches the empty text. A choice tries its alternatives in order, each from the position where the choice started, commits to the first one that matches (yielding exactly its result) and fails only when no alternative matches. A rule reference behaves as the referenced rule's expression and wraps its nodes in one node carrying the rule's name.",
 ["programs","inputs"],"every rule set (any nesting, recursive rules included), every text and every start position for which parsing returns",
 "The unit tests run a dozen fixed grammars, almost all on ASCII one-line texts; none checks that later alternatives are not used after an earlier one matched, that a failed alternative leaves no trace, or the nodes produced.",
 [EX],[("sequence","parse_and"),("ordered choice","parse_or"),("rule reference","parse_rule_name"),("dispatch","parse_expr")],observe=["dynparser::parse"]),
P("C02","Repetition is greedy and respects its bounds",
 "A repetition with minimum m and maximum M (m <= M, or no maximum) matches its element as many times as possible from the current position but never more than M times (zero times when M is 0), and it succeeds exactly when at least m of these matches succeed. It yields the nodes of all the iterations in order, stops at the position after the last successful iteration, and a failed last iteration consumes nothing and adds no node. An iteration of an unbounded repetition that matches without consuming text ends it once the minimum is met, its nodes included.",
 ["programs","inputs"],"every repeated expression, every m <= M or unbounded, every text and start position for which parsing returns",
 "Tests use five bound combinations on the text aaaaaa; bounds such as 0..0, exact counts, failing last iterations that consumed part of the text and nested repetitions are never exercised.",
 [EX,LIB],[("repetition loop","parse_repeat"),("bounds","RepInfo::new")],observe=["dynparser::parse"]),
P("C03","Negation is pure lookahead",
 "A negated expression succeeds exactly when the expression fails at the current position, and fails exactly when it matches there. When it succeeds it consumes no text, produces no node, and leaves everything else about the parse as it was before; when it fails, the failure is reported at the position where the negation was tried.",
 ["programs","inputs"],"every negated expression (of any size, consuming any amount before failing), every text and start position for which parsing returns",
 "Two unit tests negate one literal at position 0; lookahead over expressions that consume text before failing or succeed after consuming is never sampled.",
 [EX],[("negation","parse_not")],observe=["dynparser::parse"]),
P("C04","Terminals match exactly the text they denote",
 "A literal matches exactly when the text continues with all its characters, consumes exactly these and yields one leaf with the literal; a character class matches exactly one character that is in its list or inside one of its inclusive ranges; the any-character element matches any one character; these yield that character as a leaf. The end-of-input element matches only at the end of the text and yields the end-of-file node. All comparisons are on Unicode characters, and a failing terminal is reported just after the offending character, or at the end of the text when the text ran out.",
 ["inputs"],"every literal, every class (any list, any number of ranges), every text (any Unicode content) and start position",
 "Tests try a few ASCII literals and ranges; boundaries of ranges, multi-byte characters, newline characters and partial literals at the end of the text are not enumerated.",
 [AT],[("literal","parse_literal"),("class","parse_match"),("any","parse_dot"),("end of input","parse_eof"),("cursor","Status::get_char")],observe=["dynparser::parse"]),
P("C05","A parse succeeds exactly when main matches the whole text",
 "Parsing a text with a rule set returns a tree exactly when the rule named main matches starting at the beginning of the text and its match ends at the end of the text, whatever characters the text contains; the tree returned is the node of that match. Otherwise an error is returned: main's own failure, or, when main matched only a prefix, the most recent failure that ended a repetition on the successful path, and if there is none an error at the position where the match stopped.",
 ["programs","inputs"],"every rule set and every text (including empty, multi-line and non-ASCII texts) for which parsing returns",
 "The tests only use ASCII texts, for which character and byte counts coincide, and only check is_ok or is_err.",
 [LIB,EX],[("completeness test","parse_with_debug"),("entry","parser::expression::parse"),("error of a stopped repetition","Status::set_potential_error")],observe=["dynparser::parse","dynparser::parse_debug"]),
P("C06","The leaves of the tree spell the parsed text",
 "When parsing succeeds, the root of the tree is the rule main, and the concatenation, in order, of all the leaf values of the tree is exactly the input text: nothing lost, duplicated, reordered or invented, and end-of-file nodes stand for no text. Text inspected by negation or by abandoned alternatives and iterations contributes nothing.",
 ["programs","inputs"],"every rule set and every text that parses",
 "It is a conservation law over all grammars and texts; the tests never compare a tree with the text it came from.",
 [EX,AT],[("leaf construction","ok! in parser::atom"),("node accumulation","parse_and, parse_repeat"),("backtracking by status copy","parse_or, parse_not, parse_repeat")],observe=["dynparser::parse"]),
P("C07","Reported error positions and context lines are accurate",
 "In every error returned by a parse, the position counts the characters before it; the row is the number of line feeds before it; the column is the number of characters since the last line feed or carriage return before it; and the line start is the position just after the last line feed before it. The text before is exactly the characters from that line start to the position, and the text after is exactly the characters from the position up to the next line feed, carriage return or end of text.",
 ["programs","inputs"],"every rule set, every text with any mix of line ends and multi-byte characters, every error returned",
 "No test looks at the row, column or context of an error, and none parses a non-ASCII text.",
 [PM,AT],[("position update","Status::get_char"),("error snapshot","Error::from_status")],state=[dict(name="pos",meaning="position of the cursor",where="parser::Possition")],observe=["dynparser::parse"]),
P("C08","error(...) and missing rules stop the parse with their own report",
 "When parsing reaches an error element or a reference to an undefined rule, outside a negation, the parse fails with a critical error at that position; for an error element its description is the given text, verbatim. No enclosing choice, repetition or sequence may try something else, replace the error or turn it into a success. Conversely a critical error is only ever reported when an error element or undefined rule was reached.",
 ["programs","inputs"],"every rule set containing error elements or undefined references at any depth, every text",
 "One documentation example checks one message on one grammar; propagation through each combinator at any depth is not sampled.",
 [EX,AT],[("critical priority","parse_error, parse_rule_name"),("no recovery","parse_or, parse_repeat, parse_and")],observe=["dynparser::parse"]),
P("C09","A failed choice reports its furthest failure",
 "When every alternative of a choice fails without a critical error, the error reported for the choice is the failure of one of its alternatives with the greatest position, and among several with the same position the one of the latest alternative; a choice with no alternatives fails where it started. A failing sequence reports the failure of its failing element, and a repetition that misses its minimum reports the failure of the iteration that failed.",
 ["programs","inputs"],"every choice with any number of alternatives failing at any positions, nested at any depth, every text",
 "No test inspects which failure is reported.",
 [EX],[("deepest error","deep_err in parse_or"),("error forwarding","parse_and, parse_repeat")],observe=["dynparser::parse"]),
P("C10","Debug parsing gives the same outcome and only adds a trace",
 "For the same rules and text, the debug parse succeeds exactly when the plain parse does, with the same tree, and otherwise fails with the same description, position, context and priority. The plain parse reports an empty rule trace; the debug parse's error lists the rules entered on the way, starting with main.",
 ["programs","inputs"],"every rule set and every text for which parsing returns",
 "No test calls the debug entry point.",
 [LIB,PM,EX],[("trace switch","parse_with_debug, Status::init_debug"),("trace","Status::push_rule, parse_rule_name")],observe=["dynparser::parse","dynparser::parse_debug"]),
P("C11","Parsing terminates on grammars without left recursion",
 "For every rule set in which no rule can reach itself again without consuming text, and every finite text, parsing returns a result after finitely many steps. This includes unbounded repetitions of expressions that can match without consuming anything, nested to any depth.",
 ["programs","inputs"],"every rule set without left recursion (repetition of nullable elements allowed), every text",
 "A hang cannot be observed by a finite set of passing tests, and no test repeats an element that can match the empty text.",
 [EX,AT],[("repetition loop","parse_repeat"),("recursion","parse_expr")],observe=["dynparser::parse"]),
P("C12","Parsing never crashes on any text or rule set",
 "For every rule set and every text, the parse and debug-parse entry points return either a tree or an error and never panic: no slicing outside the text or inside a character, no arithmetic overflow, no failed unwrap. (Exhausting the stack by unbounded recursion is outside this property.)",
 ["programs","inputs"],"every rule set (undefined rules, empty choices, inverted ranges and odd bounds included) and every text, any Unicode content",
 "Tests never use non-ASCII text, where byte and character offsets differ, nor degenerate expressions.",
 [PM,AT,EX,LIB],[("text slicing","Error::from_status"),("cursor","Status::get_char"),("counters","parse_repeat")],observe=["dynparser::parse","dynparser::parse_debug"]),
P("C13","Pruning removes exactly the named rule nodes",
 "Pruning a tree with a list of names removes every rule node below the root whose name is in the list, together with its whole subtree, and nothing else: all other nodes keep their kind, name or value, their parent and their relative order, at every depth. The root is never removed and the original tree is unchanged.",
 ["inputs"],"every tree and every list of names (empty, repeated or unknown names included)",
 "One documentation example prunes two leaves of one tree.",
 [AST],[("prune","ast::Node::prune")],observe=["dynparser::ast::Node::prune"]),
P("C14","Pass-through keeps exactly the named rule nodes",
 "Passing a tree through with a list of names to keep removes every rule node below the root whose name is not in the list and puts its processed children in its place, in order, at any depth; every rule node whose name is listed, every value and every end-of-file node is kept with its value and relative order. The root is always kept.",
 ["inputs"],"every tree and every list of names to keep",
 "One documentation example with a single chain of nodes.",
 [AST],[("pass through","ast::Node::pass_through_except")],observe=["dynparser::ast::Node::pass_through_except"]),
P("C15","Compacting merges adjacent values and changes nothing else",
 "Compacting a tree replaces every maximal run of consecutive value nodes among the children of a rule by one value node holding their concatenation in order, at every depth; rule and end-of-file nodes keep their names, parents and order and are never merged or crossed. Hence no two value siblings remain adjacent and the leaf text of every node is unchanged.",
 ["inputs"],"every tree, including empty values, empty rules and runs of any length",
 "One documentation example with one run of three values.",
 [AST],[("compact","ast::Node::compact")],observe=["dynparser::ast::Node::compact"]),
P("C16","Flattening is a faithful, balanced traversal",
 "Flattening a tree lists, in document order, a begin and an end marker with the rule's name around the flattened children of each rule node, and one entry for each value; end-of-file nodes add nothing. The markers are always balanced and properly nested, and two trees without end-of-file nodes and different from each other flatten to different lists.",
 ["inputs"],"every tree of any depth and width",
 "One documentation example on one small tree.",
 [FL],[("flatten","ast::Node::flatten")],observe=["dynparser::ast::Node::flatten"]),
P("C17","Tree and flat-list accessors consume exactly what they match",
 "Each accessor of the tree and flat-list modules that consumes a node succeeds exactly when the first node has the required kind (and the required name or value when one is given), and then returns the value, children or node it names together with exactly the remaining nodes after that one; otherwise, and on an empty list, it returns an error. Peeking and the single-value accessors return exactly the node or value in question, without consuming, and fail exactly when it does not exist or has another kind.",
 ["inputs"],"every node list (empty included), every name and value",
 "The examples only show successes on short lists.",
 [AST,FL],[("tree accessors","ast::consume_val, consume_this_value, split_first_nodes, peek_first_node, ..."),("flat accessors","ast::flat::consume_node_start_rule_name, consume_node_end_rule_name, ...")],observe=["dynparser::ast","dynparser::ast::flat"]),
P("C18","Adding and merging rules keeps every definition",
 "Adding a rule binds that name to the given expression, replacing an earlier definition of the same name, and leaves every other rule as it was. Merging a rule set into another yields exactly the rules of both; when a name is defined in both, the definition of the receiving set is kept.",
 ["programs","histories"],"every sequence of additions and merges over any rule sets and names",
 "Two documentation examples add or merge one new rule; overriding and conflicts are never tried.",
 [EX,LIB],[("add","SetOfRules::add"),("merge","SetOfRules::merge")],observe=["dynparser::parser::expression::SetOfRules"]),
P("C19","PEG text is translated with the documented structure",
 "In the rules built from PEG text, '/' binds loosest, then juxtaposition, then the suffixes * + ? and the prefix !, and parentheses override this; alternatives and sequence elements keep their written order, a single element is not wrapped, * is 0 or more, + is 1 or more, ? is 0 or 1, '.' is any character, a name refers to that rule, and error(...) becomes an error element with that text. Every rule written appears under its (dotted) name with its own expression, in modules or not, and no other rule appears.",
 ["programs"],"every syntactically valid PEG grammar",
 "Tests run a few small grammars and look only at accept or reject, so a wrong grouping or order on other grammars goes unnoticed.",
 [PEG],[("translation","consume_or, consume_and, consume_rep_or_neg, consume_atom_or_par, consume_atom, consume_parenth, consume_rule, consume_grammar")],observe=["dynparser::rules_from_peg"]),
P("C20","PEG string literals denote exactly the documented text",
 "A single-quoted PEG literal denotes exactly the characters between the quotes, with no escape processing, the empty literal included. A double-quoted literal denotes its characters with \\n, \\r, \\t, \\\\, \\\" and \\0xHH (two upper-case hexadecimal digits) replaced by the character they name, and every other character, a backslash not starting one of these included, standing for itself.",
 ["inputs"],"every literal body",
 "Tests use plain letters only; no escape, no backslash and no empty literal is checked.",
 [PEG,RU],[("single-quoted","consume_literal_no_esc"),("double-quoted","consume_literal_esc, consume_esc_char, consume_hex_char")],observe=["dynparser::rules_from_peg"]),
P("C21","PEG character classes denote exactly the written set",
 "A PEG character class becomes a class element whose character list is exactly the characters written before the ranges and whose ranges are exactly the written from-to pairs, in order and with their end points, so it matches exactly these characters.",
 ["inputs"],"every valid class, any characters, any number of ranges",
 "Two grammars with one class each.",
 [PEG],[("class","consume_match, consume_mchars, consume_mbetween")],observe=["dynparser::rules_from_peg"]),
P("C22","Generated Rust code rebuilds the same rules",
 "The Rust source generated from a rule set has exactly one entry per rule, and each string or character literal in it denotes, under Rust's lexical rules, exactly the name, literal text, error text or class character of that rule; combinators, bounds and the order of elements are reproduced, so that compiling the code yields the same rule set.",
 ["programs"],"every rule set whose rule names are PEG names (any literals, error texts, classes and bounds)",
 "The generator is only run to print; nothing compares its output with the rules.",
 [GC,"src/lib.rs"],[("macros","rules!, lit!, error!, dot!, eof!, ematch!, and!, or!, not!, rep!, ref_rule!"),("generation","rust_from_rules, rule2code, expr2code, mexpr2code, atom2code, match_rules2code, repeat2code")],observe=["dynparser::peg::gcode::rust_from_rules"]),
P("C23","The built-in PEG grammar is the documented one",
 "The rules used to read PEG text are exactly the published PEG grammar of PEG: the same rule names, each with the same expression, alternatives and order. Hence the grammar accepted by the library is its own documented grammar, and feeding that grammar to the library reproduces these rules.",
 ["programs"],"every PEG text: acceptance is decided by these rules, all of them and nothing else",
 "Tests feed about twenty grammars and observe accept or reject; a dropped alternative or a reordered choice in one of the thirty-odd rules affects only texts that use it.",
 [RU,P2C],[("built-in rules","rules::parse_peg"),("published grammar","peg2code::text_peg2code")],observe=["dynparser::rules_from_peg","dynparser::peg::peg2code::print_rules2parse_peg"]),
P("C24","Every text is read or refused by the PEG grammar, and by nothing else",
 "Reading PEG text gives rules exactly when the published PEG grammar of PEG matches the whole text. Every other text is refused with the error of that parse: the same position, line, description and priority as parsing the text by that grammar reports, wrapped as a parser error. Nothing the grammar accepts is refused, misread as malformed or makes the reader panic afterwards, whatever characters, escapes, names (repeated ones included), nesting or modules it uses. Reading ends for every text.",
 ["inputs"],"every text whatsoever, valid PEG or not",
 "Tests read about twenty small valid grammars and a few broken ones; whether some accepted text trips the translation behind the parser, or some malformed one slips through, depends on texts no test contains.",
 [PEG,RU],[("composition","rules_from_peg"),("reader","rules_from_flat_ast, consume_main and every consume_ function below it"),("error","From<parser::Error> for peg::Error")],observe=["dynparser::rules_from_peg"]),
]
with open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for p in ps:
        assert len(p['title'])<=80,p['id']
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(ps))
