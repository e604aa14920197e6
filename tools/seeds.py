EX, AT, PA, LIB, AST, FLAT, PEG, GC, RU = ('src/parser/expression/mod.rs', 'src/parser/atom/mod.rs', 'src/parser/mod.rs', 'src/lib.rs',
    'src/ast/mod.rs', 'src/ast/flat.rs', 'src/peg/mod.rs', 'src/peg/gcode.rs', 'src/peg/rules.rs')
SEEDS = []
def S(id, property, needs, what, edits, demo):
    SEEDS.append(dict(id=id, property=property, needs=needs, what_it_breaks=what, edits=edits, demo=demo))
PRE = '''
#[allow(unused)] use dynparser::{parse, parse_debug, rules_from_peg, ast::{self, flat}, parser::expression::SetOfRules};
#[allow(unused)] fn v(s: &str) -> ast::Node { ast::Node::Val(s.to_string()) }
#[allow(unused)] fn r(s: &str, n: Vec<ast::Node>) -> ast::Node { ast::Node::Rule((s.to_string(), n)) }
'''
def D(body): return PRE + 'fn main() {\n' + body + '\n}\n'

S('b01_or_prefers_consuming', 'C01', 'a choice whose first alternative matches the empty text while a later one matches too',
  'the choice does not commit to its first matching alternative',
  [(EX, '''                Ok(result) => TailCall::Return(Ok(result)),''',
        '''                //  an empty match is used only as last option
                Ok(ref result) if result.1.is_empty() && acc.1.len() > 1 && acc.2.is_none() => {
                    let e = Error::from_status_normal(&result.0, "empty");
                    TailCall::Call((acc.0, &acc.1[1..], Some(e)))
                }
                Ok(result) => TailCall::Return(Ok(result)),''')],
  D('''let rules = rules!{ "main" => and!(or!(rep!(lit!("x"), 0), lit!("a")), lit!("a")) };
    assert!(parse("a", &rules).is_ok());'''))
S('b02_max_zero_is_unbounded', 'C02', 'a repetition with maximum 0',
  'a maximum of 0 is taken as no maximum, when the repetition is built',
  [(EX, 'max: max.map(NRep),', 'max: max.filter(|m| *m > 0).map(NRep),')],
  D('''let rules = rules!{ "main" => and!(rep!(lit!("a"), 0, 0), lit!("a")) };
    assert!(parse("a", &rules).is_ok()); assert!(parse("aa", &rules).is_err());'''))
S('b03_not_keeps_error', 'C03', 'a successful negation, and a text not fully consumed afterwards',
  'the negation leaves the failure of its expression behind in the parse, and it is reported later',
  [(EX, 'Err(_) => Ok((status, vec![])),', 'Err(e) => Ok((status.set_potential_error(e), vec![])),')],
  D('''let rules = rules!{ "main" => and!(not!(lit!("ab")), lit!("a"), lit!("c")) };
    let e = parse("acX", &rules).unwrap_err(); assert_eq!((e.pos.n, e.descr.as_str()), (2, "not consumed full input"));'''))
S('b04_class_bytes', 'C04', 'a class listing a non-ASCII character, or a Latin-1 character in the text',
  'the character list of a class is searched by bytes',
  [(AT, 'if match_rules.0.find(ch).is_some() {', "if match_rules.0.bytes().any(|b| b as char == ch) {")],
  D('''let rules = rules!{ "main" => ematch!(chlist "\\u{e9}", from2 vec![]) };
    assert!(parse("\\u{e9}", &rules).is_ok()); assert!(parse("\\u{c3}", &rules).is_err());'''))
S('b05_potential_only_deeper', 'C05', 'main matches a prefix and the last failure that ended a repetition lies before the end of that prefix',
  'the failure that ended a repetition is not reported',
  [(LIB, '(false, Some(e)) => Err(e),\n        (false, None) => Err(', '(false, Some(ref e)) if e.pos.n > st.pos.n => Err(e.clone()),\n        (false, _) => Err(')],
  D('''let rules = rules!{ "main" => and!(rep!(lit!("a"), 0), lit!("bcd")) };
    let e = parse("aabcdX", &rules).unwrap_err(); assert_eq!((e.pos.n, e.descr.as_str()), (3, "expected literal: <a>"));'''))
S('b06_dot_normalises_cr', 'C06', 'a carriage return matched by the any-character element',
  'the leaf holds a line feed where the text has a carriage return',
  [(AT, '''        .map_err(|st| Error::from_status_normal(&st, "dot"))?;
''', '''        .map_err(|st| Error::from_status_normal(&st, "dot"))?;
    let ch = if ch == '\\r' { '\\n' } else { ch };
''')],
  D('''let rules = rules!{ "main" => rep!(dot!(), 0) };
    assert_eq!(parse("a\\r", &rules).unwrap().compact(), r("main", vec![v("a\\r")]));'''))
S('b07_cr_starts_line', 'C07', 'a carriage return without line feed before the error',
  'the line start of the position moves to the carriage return',
  [(AT, """                    '\\r' => {
                        self.pos.col = 0;
""", """                    '\\r' => {
                        self.pos.col = 0;
                        self.pos.start_line = self.pos.n;
""")],
  D('''let rules = rules!{ "main" => and!(dot!(), dot!(), dot!(), lit!("z")) };
    let e = parse("a\\rbc", &rules).unwrap_err(); assert_eq!((e.pos.n, e.pos.row, e.pos.col, e.pos.start_line), (4, 0, 2, 0));'''))
S('b08_last_critical', 'C08', 'an error element in the last alternative of a choice, after another alternative that failed further on',
  'the critical error of the last alternative competes with the normal ones and can lose',
  [(EX, '''                    if e.priority == ErrPriority::Critical {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))''',
        '''                    if e.priority == ErrPriority::Critical && acc.1.len() > 1 {
                        TailCall::Return(Err(e))
                    } else {
                        TailCall::Call((acc.0, &acc.1[1..], deep_err(acc.2, e)))''')],
  D('''let rules = rules!{ "main" => or!(and!(lit!("a"), lit!("b"), lit!("c")), and!(lit!("a"), error!("bad"))) };
    assert_eq!(parse("abX", &rules).unwrap_err().descr, "bad");'''))
S('b09_first_of_ties', 'C09', 'two alternatives failing at the same position',
  'the earlier of two equally far failures is reported',
  [(EX, 'e1.pos.n > e2.pos.n) {', 'e1.pos.n >= e2.pos.n) {')],
  D('''let rules = rules!{ "main" => or!(lit!("a"), lit!("b")) };
    assert_eq!(parse("x", &rules).unwrap_err().descr, "expected literal: <b>");'''))
S('b10_debug_first_potential', 'C10', 'a debug parse in which two repetitions end with a failure before a text not fully consumed',
  'the debug parse keeps the first such failure, the plain parse the last',
  [(PA, '        self.potential_error = Some(err);\n', '        if !self.trace_rules || self.potential_error.is_none() {\n            self.potential_error = Some(err);\n        }\n')],
  D('''let rules = rules!{ "main" => and!(rep!(lit!("a"), 0), rep!(lit!("b"), 0)) };
    let (e, d) = (parse("abX", &rules).unwrap_err(), parse_debug("abX", &rules).unwrap_err()); assert_eq!((e.descr, e.pos), (d.descr, d.pos));'''))
S('b11_empty_iterations_not_counted', 'C11', 'a bounded repetition of an element that matches the empty text',
  'iterations that consume nothing are not counted, so the maximum is never reached',
  [(EX, '''                TailCall::Call((status, acc.1 + 1, acc.2.iappend(vnodes)))''',
        '''                let count = if status.pos.n > acc.0.pos.n { acc.1 + 1 } else { acc.1 };
                TailCall::Call((status, count, acc.2.iappend(vnodes)))''')],
  D('''let rules = rules!{ "main" => rep!(rep!(lit!("a"), 0), 0, 2) };
    assert!(parse("aa", &rules).is_ok());'''))
S('b12_shortened_class', 'C12', 'a failing class with more than 16 bytes of characters, not all of them ASCII',
  'the error message cuts the class inside a character and panics',
  [(AT, '''&format!("match. expected {} {:?}", match_rules.0, match_rules.1),''',
        '''&format!("match. expected {} {:?}", &match_rules.0[..match_rules.0.len().min(16)], match_rules.1),''')],
  D('''let rules = rules!{ "main" => ematch!(chlist "abcdefghijklmno\\u{e9}", from2 vec![]) };
    assert!(parse("z", &rules).is_err());'''))
S('b13_prune_sorted', 'C13', 'a list of names that is not sorted',
  'the names to prune are looked up by bisection',
  [(AST, 'let nname2prune = |nname: &str| nodes2prune.iter().find(|n| *n == &nname);', 'let nname2prune = |nname: &str| nodes2prune.binary_search(&nname).ok();')],
  D('''let t = r("m", vec![r("c", vec![]), r("a", vec![]), r("b", vec![v("x")]), v("y")]);
    assert_eq!(t.prune(&["c", "b", "a"]), r("m", vec![v("y")]));'''))
S('b14_pass_through_keeps_empty', 'C14', 'a rule node without children that is not in the list',
  'rule nodes without children stay in the tree',
  [(AST, 'Node::Rule((_, new_nodes)) => acc.iappend(pthr_vn(new_nodes, nodes2keep)),', 'Node::Rule((_, new_nodes)) if !new_nodes.is_empty() => acc.iappend(pthr_vn(new_nodes, nodes2keep)),')],
  D('''let t = r("m", vec![r("a", vec![v("x"), r("b", vec![])]), r("k", vec![])]);
    assert_eq!(t.pass_through_except(&["k"]), r("m", vec![v("x"), r("k", vec![])]));'''))
S('b15_compact_empty_values', 'C15', 'an empty value followed by another value',
  'an empty value is not merged with the value after it',
  [(AST, 'Some(Node::Val(ref v)) => Some(v.to_string()),\n                _ => None,', 'Some(Node::Val(ref v)) if !v.is_empty() => Some(v.to_string()),\n                _ => None,')],
  D('''let t = r("m", vec![v(""), v("a"), v("b")]);
    assert_eq!(t.compact(), r("m", vec![v("ab")]));'''))
S('b16_flatten_drops_empty', 'C16', 'an empty value', 'empty values are not listed, so different trees flatten to the same list',
  [(FLAT, 'ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),', 'ast::Node::Val(v) if v.is_empty() => acc,\n                ast::Node::Val(v) => acc.ipush(Node::Val(v.clone())),')],
  D('''assert_ne!(r("m", vec![v("")]).flatten(), r("m", vec![]).flatten());'''))
S('b17_this_value_prefix', 'C17', 'a first value that starts with the required one and is longer',
  'the accessor accepts a value of which the required one is a prefix',
  [(FLAT, 'if nv == v {', 'if nv.starts_with(v) {')],
  D('''let f = vec![flat::Node::Val("ab".to_string())];
    assert!(flat::consume_this_value("a", &f).is_err()); assert!(flat::consume_this_value("ab", &f).is_ok());'''))
S('b18_merge_takes_other', 'C18', 'a name defined in both sets', 'the definition of the merged set replaces the one of the receiving set',
  [(EX, 'SetOfRules(rules2merge.0.into_iter().chain(self.0).collect())', 'let mut all = self.0;\n        all.extend(rules2merge.0);\n        SetOfRules(all)')],
  D('''let a = rules!{ "main" => lit!("a") }; let b = rules!{ "main" => lit!("b") };
    assert!(parse("a", &a.merge(b)).is_ok());'''))
S('b19_first_dot_lost', 'C19', 'a rule name that starts with a dot', 'the leading dot of a rule name is lost',
  [(PEG, 'let str_result = format!("{}{}{}", start_dot, symbol, dot_symbol);', 'let str_result = format!("{}{}{}", if dot_symbol.is_empty() { "" } else { start_dot }, symbol, dot_symbol);')],
  D('''let rules = rules_from_peg("main = .foo\\n.foo = 'a'\\nfoo = 'b'\\n").unwrap();
    assert!(rules.0.contains_key(".foo")); assert!(parse("a", &rules).is_ok());'''))
S('b20_hex_utf8', 'C20', 'a hexadecimal escape of 80 or more', 'the byte is decoded as UTF-8 instead of naming the character',
  [(PEG, 'Ok(v) => Ok(v as char),', "Ok(v) => Ok(String::from_utf8_lossy(&[v]).chars().next().unwrap_or(' ')),")],
  D('''let rules = rules_from_peg("main = \\"\\\\0xE9\\"\\n").unwrap();
    assert!(parse("\\u{e9}", &rules).is_ok());'''))
S('b21_ranges_ordered', 'C21', 'a range written with its end points in descending order', 'the end points are swapped',
  [(PEG, 'Ok(((from, to), nodes, context))', 'Ok(((from.min(to), from.max(to)), nodes, context))')],
  D('''let rules = rules_from_peg("main = [z-a]\\n").unwrap();
    assert!(parse("m", &rules).is_err());'''))
S('b22_exact_count', 'C22', 'a repetition whose maximum equals its minimum', 'the generated code has no maximum',
  [(GC, 'Some(ref m) => format!(", {}", m.0),', 'Some(ref m) if m.0 != rep.min.0 => format!(", {}", m.0),\n            Some(_) => "".to_owned(),')],
  D('''let rules = rules!{ "main" => rep!(lit!("a"), 2, 2) };
    assert!(dynparser::peg::gcode::rust_from_rules(&rules).contains("2, 2)"));'''))
S('b23_hex_second_digit', 'C23', 'a hexadecimal escape ending in F', 'the built-in grammar does not take F as the second digit',
  [(RU, '''ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'F' ))
       , r#"parenth"#''', '''ematch!(chlist r#""#  , from '0', to '9' , from 'A', to 'E' ))
       , r#"parenth"#''')],
  D('''let rules = rules_from_peg("main = \\"\\\\0x2F\\"\\n").unwrap();
    assert!(parse("/", &rules).is_ok());'''))
S('d24_byte_order_mark', 'C24', 'PEG text that starts with a byte order mark', 'a text the grammar does not match is read',
  [(PEG, 'let ast = parse(peg, &rules::parse_peg())?;', "let ast = parse(peg.trim_start_matches('\\u{feff}'), &rules::parse_peg())?;")],
  D("""assert!(rules_from_peg("main = 'a'\\n").is_ok()); assert!(rules_from_peg("\\u{feff}main = 'a'\\n").is_err());"""))
S('d24_defined_twice', 'C24', 'PEG text that defines a name twice', 'a text the grammar matches is refused',
  [(PEG, """let ((name, expr), nodes, context) = consume_rule(nodes, context)?;
        let rules = rules.add(&name, expr);""", """let ((name, expr), nodes, context) = consume_rule(nodes, context)?;
        if rules.0.contains_key(&name) {
            return Err(error_peg_s(&format!("rule {} defined twice", name)));
        }
        let rules = rules.add(&name, expr);""")],
  D("""assert!(rules_from_peg("main = 'a'\\nmain = 'b'\\n").is_ok());"""))
S('d24_error_at_end', 'C24', 'PEG text that breaks off where the line ends', 'the error is not the one of the parse: its message is another',
  [(PEG, """fn from(e: parser::Error) -> Self {
        Error::Parser(e)""", """fn from(mut e: parser::Error) -> Self {
        if e.line_after.is_empty() {
            e.descr = "unexpected end of line".to_string();
        }
        Error::Parser(e)""")],
  D("""match rules_from_peg("main = (") { Err(dynparser::peg::Error::Parser(e)) => { println!("{}", e.descr); assert_eq!(e.descr, "expected literal: <!>") } _ => panic!() }"""))
S('d24_module_same_name', 'C24', 'a module within a module whose name it ends with', 'the text is refused: the module stack is popped once more than it was pushed',
  [(PEG, """        match self.inside_mods.last().cloned() {
            Some(mod_path) => self""", """        match self.inside_mods.last().cloned() {
            //  already there
            Some(ref mod_path) if mod_path.ends_with(mod_name) => (),
            Some(mod_path) => self""")],
  D("""assert!(rules_from_peg("m { n { a = 'a'\\n }\\n }\\n").is_ok()); assert!(rules_from_peg("m { m { a = 'a'\\n }\\n }\\n").is_ok());"""))
