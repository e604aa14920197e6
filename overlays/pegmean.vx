//@ include fnode.vx
//@ include gexpr.vx
//@ spec
// ------------------------------------------------------------------ what is left of a flattened tree, read back as trees
/// the trees not yet read of the innermost open rule, that rule's name, and what is around it
pub enum Stk { Bad, Top(Seq<GNode>), Lvl(Seq<GNode>, Seq<char>, Box<Stk>) }
pub open spec fn top(k: Stk) -> Seq<GNode> { match k { Stk::Bad => Seq::empty(), Stk::Top(v) => v, Stk::Lvl(v, _, _) => v } }
pub open spec fn put(g: GNode, k: Stk) -> Stk { match k { Stk::Bad => k, Stk::Top(v) => Stk::Top(seq![g] + v), Stk::Lvl(v, n, up) => Stk::Lvl(seq![g] + v, n, up) } }
pub open spec fn drop1(k: Stk) -> Stk { match k { Stk::Bad => k, Stk::Top(v) => Stk::Top(v.skip(1)), Stk::Lvl(v, n, up) => Stk::Lvl(v.skip(1), n, up) } }
#[verifier::opaque]
pub open spec fn st(s: Seq<FNode>) -> Stk decreases s.len() {
    if s.len() == 0 { Stk::Top(Seq::empty()) } else {
        match s[0] {
            FNode::EOF => Stk::Bad,
            FNode::Val(v) => put(GNode::Val(v), st(s.skip(1))),
            FNode::End(n) => match st(s.skip(1)) { Stk::Bad => Stk::Bad, k => Stk::Lvl(Seq::empty(), n, Box::new(k)) },
            FNode::Begin(n) => match st(s.skip(1)) { Stk::Lvl(ch, m, up) => if m == n { put(GNode::Rule(n, ch), *up) } else { Stk::Bad }, _ => Stk::Bad },
        }
    }
}
pub open spec fn nk(v: Seq<ast_flat_Node>) -> Stk { st(fs(v)) }
pub proof fn lemma_put(g: GNode, k: Stk)
    ensures !(k is Bad) ==> top(put(g, k)).len() == top(k).len() + 1 && top(put(g, k))[0] == g && drop1(put(g, k)) == k && !(put(g, k) is Bad),
{ match k { Stk::Top(v) => { assert((seq![g] + v).skip(1) =~= v); } Stk::Lvl(v, _, _) => { assert((seq![g] + v).skip(1) =~= v); } _ => {} } }
/// one step of reading
pub proof fn lemma_nk(v: Seq<ast_flat_Node>)
    ensures
        v.len() == 0 ==> nk(v) == Stk::Top(Seq::empty()),
        v.len() > 0 ==> f1(v[0]) == fs(v)[0],
        v.len() > 0 && !(nk(v) is Bad) ==> match f1(v[0]) {
            FNode::EOF => false,
            FNode::Val(s) => top(nk(v)).len() > 0 && top(nk(v))[0] == GNode::Val(s) && nk(v.skip(1)) == drop1(nk(v)),
            FNode::End(n) => nk(v) matches Stk::Lvl(w, m, up) && w.len() == 0 && m == n && nk(v.skip(1)) == *up,
            FNode::Begin(n) => top(nk(v)).len() > 0 && (top(nk(v))[0] matches GNode::Rule(m, ch) && m == n && nk(v.skip(1)) == Stk::Lvl(ch, n, Box::new(drop1(nk(v))))),
        },
{
    reveal_with_fuel(st, 2);
    if v.len() > 0 {
        assert(fs(v.skip(1)) =~= fs(v).skip(1));
        let k = nk(v.skip(1));
        match f1(v[0]) {
            FNode::Val(s) => { lemma_put(GNode::Val(s), k); }
            FNode::Begin(n) => { match k { Stk::Lvl(ch, m, up) => { lemma_put(GNode::Rule(n, ch), *up); } _ => {} } }
            _ => {}
        }
    } else { assert(fs(v) =~= Seq::<FNode>::empty()); }
}
/// flattening and reading back
pub proof fn lemma_st1(n: GNode, rest: Seq<FNode>)
    requires no_eof(n), !(st(rest) is Bad),
    ensures st(gf(n) + rest) == put(n, st(rest)),
    decreases n, 0int,
{
    reveal_with_fuel(st, 2);
    match n {
        GNode::Val(v) => { assert((gf(n) + rest).skip(1) =~= rest); }
        GNode::EOF => {}
        GNode::Rule(nm, ch) => {
            let t = gf(n) + rest;
            let e = seq![FNode::End(nm)] + rest;
            assert(t.skip(1) =~= gfs(ch) + e);
            assert(e.skip(1) =~= rest);
            lemma_sts(ch, e);
            assert(st(e) == Stk::Lvl(Seq::empty(), nm, Box::new(st(rest))));
            assert(ch + Seq::<GNode>::empty() =~= ch);
        }
    }
}
pub open spec fn puts(v: Seq<GNode>, k: Stk) -> Stk { match k { Stk::Bad => k, Stk::Top(w) => Stk::Top(v + w), Stk::Lvl(w, n, up) => Stk::Lvl(v + w, n, up) } }
pub proof fn lemma_sts(v: Seq<GNode>, rest: Seq<FNode>)
    requires nos_eof(v), !(st(rest) is Bad),
    ensures st(gfs(v) + rest) == puts(v, st(rest)),
    decreases v, 1int,
{
    let k = st(rest);
    if v.len() == 0 {
        assert(gfs(v) + rest =~= rest);
        match k { Stk::Top(w) => { assert(v + w =~= w); } Stk::Lvl(w, _, _) => { assert(v + w =~= w); } _ => {} }
    } else {
        assert(decreases_to!(v => v[v.len() - 1]));
        assert(gfs(v) + rest =~= gfs(v.drop_last()) + (gf(v.last()) + rest));
        lemma_st1(v.last(), rest);
        lemma_put(v.last(), k);
        lemma_sts(v.drop_last(), gf(v.last()) + rest);
        match k { Stk::Top(w) => { assert(v.drop_last() + (seq![v.last()] + w) =~= v + w); } Stk::Lvl(w, _, _) => { assert(v.drop_last() + (seq![v.last()] + w) =~= v + w); } _ => {} }
    }
}

// ------------------------------------------------------------------ what the syntax tree of a grammar means (C19, C20, C21)
pub open spec fn kids(g: GNode, nm: Seq<char>) -> Option<Seq<GNode>> { match g { GNode::Rule(n, ch) => if n == nm { Some(ch) } else { None }, _ => None } }
pub open spec fn is(g: GNode, nm: Seq<char>) -> bool { g matches GNode::Rule(n, _) && n == nm }
/// the text of a node that holds nothing but text
pub open spec fn leaf(g: GNode, nm: Seq<char>) -> Option<Seq<char>> {
    match g { GNode::Rule(n, ch) => if n == nm && ch.len() == 1 { match ch[0] { GNode::Val(s) => Some(s), _ => None } } else { None }, _ => None }
}
pub open spec fn one_or(l: Seq<GE>) -> GE { if l.len() == 1 { l[0] } else { GE::Or(l) } }
pub open spec fn one_and(l: Seq<GE>) -> GE { if l.len() == 1 { l[0] } else { GE::And(l) } }
pub open spec fn m_expr(g: GNode) -> Option<GE> decreases g, 1int {
    match g { GNode::Rule(n, ch) => if n == "expr"@ && ch.len() == 1 { m_or(ch[0]) } else { None }, _ => None }
}
/// '/' binds loosest; the alternatives keep their order; a single one is not wrapped
pub open spec fn m_or(g: GNode) -> Option<GE> decreases g, 1int { match l_or(g) { Some(l) => Some(one_or(l)), None => None } }
pub open spec fn l_or(g: GNode) -> Option<Seq<GE>> decreases g, 0int {
    match g {
        GNode::Rule(n, ch) =>
            if n != "or"@ { None }
            else if ch.len() == 1 { match m_and(ch[0]) { Some(e) => Some(seq![e]), None => None } }
            else if ch.len() == 3 && ch[1] == GNode::Val("/"@) { match (m_and(ch[0]), l_or(ch[2])) { (Some(e), Some(l)) => Some(seq![e] + l), _ => None } }
            else { None },
        _ => None,
    }
}
/// then juxtaposition
pub open spec fn m_and(g: GNode) -> Option<GE> decreases g, 1int { match l_and(g) { Some(l) => Some(one_and(l)), None => None } }
pub open spec fn l_and(g: GNode) -> Option<Seq<GE>> decreases g, 0int {
    match g {
        GNode::Rule(n, ch) =>
            if n != "and"@ || ch.len() == 0 { None }
            else if is(ch[0], "error"@) { if ch.len() == 1 { match m_error(ch[0]) { Some(s) => Some(seq![GE::Error(s)]), None => None } } else { None } }
            else { match (m_rep(ch[0]), l_ands(ch.skip(1))) { (Some(e), Some(l)) => Some(seq![e] + l), _ => None } },
        _ => None,
    }
}
pub open spec fn l_ands(v: Seq<GNode>) -> Option<Seq<GE>> decreases v, 0int {
    if v.len() == 0 { Some(Seq::empty()) } else { match (l_and(v[0]), l_ands(v.skip(1))) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
/// then the suffixes and the prefix
pub open spec fn m_rep(g: GNode) -> Option<GE> decreases g, 0int {
    match g {
        GNode::Rule(n, ch) =>
            if n != "rep_or_neg"@ { None }
            else if ch.len() == 1 { m_par(ch[0]) }
            else if ch.len() == 2 && ch[0] == GNode::Val("!"@) { match m_par(ch[1]) { Some(e) => Some(GE::Not(Box::new(e))), None => None } }
            else if ch.len() == 2 { match m_par(ch[0]) {
                Some(e) => if ch[1] == GNode::Val("*"@) { Some(GE::Rep(Box::new(e), 0, None)) }
                    else if ch[1] == GNode::Val("+"@) { Some(GE::Rep(Box::new(e), 1, None)) }
                    else if ch[1] == GNode::Val("?"@) { Some(GE::Rep(Box::new(e), 0, Some(1nat))) } else { None },
                None => None } }
            else { None },
        _ => None,
    }
}
pub open spec fn m_par(g: GNode) -> Option<GE> decreases g, 0int {
    match g {
        GNode::Rule(n, ch) => if n == "atom_or_par"@ && ch.len() == 1 { if is(ch[0], "parenth"@) { m_parenth(ch[0]) } else { m_atom(ch[0]) } } else { None },
        _ => None,
    }
}
/// parentheses override
pub open spec fn m_parenth(g: GNode) -> Option<GE> decreases g, 0int {
    match g {
        GNode::Rule(n, ch) => if n == "parenth"@ && ch.len() == 3 && ch[0] == GNode::Val("("@) && ch[2] == GNode::Val(")"@) { m_expr(ch[1]) } else { None },
        _ => None,
    }
}
pub open spec fn m_atom(g: GNode) -> Option<GE> {
    match g {
        GNode::Rule(n, ch) =>
            if n != "atom"@ || ch.len() != 1 { None }
            else if is(ch[0], "literal"@) { match m_lit(ch[0]) { Some(s) => Some(GE::Lit(s)), None => None } }
            else if is(ch[0], "match"@) { m_match(ch[0]) }
            else if is(ch[0], "rule_name"@) { match m_name(ch[0]) { Some(s) => Some(GE::Ref(s)), None => None } }
            else if leaf(ch[0], "dot"@) == Some("."@) { Some(GE::Dot) }
            else { None },
        _ => None,
    }
}
pub open spec fn m_error(g: GNode) -> Option<Seq<char>> {
    match kids(g, "error"@) {
        Some(ch) => if ch.len() == 4 && ch[0] == GNode::Val("error"@) && ch[1] == GNode::Val("("@) && ch[3] == GNode::Val(")"@) { m_lit(ch[2]) } else { None },
        None => None,
    }
}
// names
pub open spec fn m_name(g: GNode) -> Option<Seq<char>> {
    match kids(g, "rule_name"@) {
        Some(ch) => if ch.len() > 0 && ch[0] == GNode::Val("."@) { match l_name(ch.skip(1)) { Some(s) => Some("."@ + s), None => None } } else { l_name(ch) },
        None => None,
    }
}
pub open spec fn l_name(v: Seq<GNode>) -> Option<Seq<char>> {
    if v.len() == 0 { None } else { match (leaf(v[0], "symbol"@), l_dots(v.skip(1))) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
pub open spec fn l_dots(v: Seq<GNode>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { Some(Seq::empty()) }
    else if v.len() >= 2 && v[0] == GNode::Val("."@) { match (leaf(v[1], "symbol"@), l_dots(v.skip(2))) { (Some(a), Some(b)) => Some("."@ + a + b), _ => None } }
    else { None }
}
// literals (C20)
pub open spec fn m_lit(g: GNode) -> Option<Seq<char>> {
    match kids(g, "literal"@) {
        Some(ch) => if ch.len() != 1 { None } else if is(ch[0], "lit_noesc"@) { m_noesc(ch[0]) } else { m_esc(ch[0]) },
        None => None,
    }
}
pub open spec fn m_noesc(g: GNode) -> Option<Seq<char>> {
    match kids(g, "lit_noesc"@) {
        Some(ch) =>
            if ch.len() == 2 && leaf(ch[0], "_'"@) == Some("'"@) && leaf(ch[1], "_'"@) == Some("'"@) { Some(Seq::empty()) }
            else if ch.len() == 3 && leaf(ch[0], "_'"@) == Some("'"@) && leaf(ch[2], "_'"@) == Some("'"@) { match ch[1] { GNode::Val(s) => Some(s), _ => None } }
            else { None },
        None => None,
    }
}
pub open spec fn m_esc(g: GNode) -> Option<Seq<char>> {
    match kids(g, "lit_esc"@) {
        Some(ch) => if ch.len() >= 2 && leaf(ch[0], "_\""@) == Some("\""@) { l_esc(ch.skip(1)) } else { None },
        None => None,
    }
}
/// the elements of a double-quoted literal, up to the closing quote
pub open spec fn l_esc(v: Seq<GNode>) -> Option<Seq<char>> decreases v.len() {
    if v.len() == 0 { None }
    else if is(v[0], "_\""@) { if v.len() == 1 && leaf(v[0], "_\""@) == Some("\""@) { Some(Seq::empty()) } else { None } }
    else { match (m_el(v[0]), l_esc(v.skip(1))) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
pub open spec fn m_el(g: GNode) -> Option<Seq<char>> {
    match g {
        GNode::Val(s) => Some(s),
        _ => match leaf(g, "esc_char"@) { Some(s) => esc_of(s), None => match leaf(g, "hex_char"@) { Some(s) => hex_of(s), None => None } },
    }
}
pub open spec fn esc_of(s: Seq<char>) -> Option<Seq<char>> {
    if s == seq!['\\', 'n'] { Some(seq!['\n']) } else if s == seq!['\\', 'r'] { Some(seq!['\r']) } else if s == seq!['\\', 't'] { Some(seq!['\t']) }
    else if s == seq!['\\', '\\'] { Some(seq!['\\']) } else if s == seq!['\\', '"'] { Some(seq!['"']) } else { None }
}
/// upper-case hexadecimal digits
pub open spec fn hexd(c: char) -> Option<int> { if '0' <= c <= '9' { Some(c as int - '0' as int) } else if 'A' <= c <= 'F' { Some(c as int - 'A' as int + 10) } else { None } }
pub open spec fn hex_of(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() == 5 && s[0] == '\\' && s[1] == '0' && s[2] == 'x' { match (hexd(s[3]), hexd(s[4])) { (Some(a), Some(b)) => Some(seq![((16 * a + b) as u8) as char]), _ => None } } else { None }
}
// character classes (C21)
pub open spec fn m_match(g: GNode) -> Option<GE> {
    match kids(g, "match"@) {
        Some(ch) =>
            if ch.len() < 3 || ch[0] != GNode::Val("["@) { None }
            else if is(ch[1], "mchars"@) { match (leaf(ch[1], "mchars"@), l_btw(ch.skip(2))) { (Some(s), Some(r)) => Some(GE::Class(s, r)), _ => None } }
            else { match l_btw(ch.skip(1)) { Some(r) => Some(GE::Class(Seq::empty(), r)), None => None } },
        None => None,
    }
}
pub open spec fn l_btw(v: Seq<GNode>) -> Option<Seq<(char, char)>> decreases v.len() {
    if v.len() == 0 { None }
    else if v[0] == GNode::Val("]"@) { if v.len() == 1 { Some(Seq::empty()) } else { None } }
    else { match (leaf(v[0], "mbetween"@), l_btw(v.skip(1))) { (Some(s), Some(r)) => if s.len() == 3 { Some(seq![(s[0], s[2])] + r) } else { None }, _ => None } }
}
// rules and modules
pub open spec fn m_rule(g: GNode) -> Option<(Seq<char>, GE)> {
    match kids(g, "rule"@) {
        Some(ch) => if ch.len() == 3 && ch[1] == GNode::Val("="@) { match (m_name(ch[0]), m_expr(ch[2])) { (Some(n), Some(e)) => Some((n, e)), _ => None } } else { None },
        None => None,
    }
}
pub open spec fn m_modname(g: GNode) -> bool { match kids(g, "mod_name"@) { Some(ch) => ch.len() == 1 && leaf(ch[0], "symbol"@) is Some, None => false } }
pub open spec fn m_module(g: GNode) -> Option<Map<Seq<char>, GE>> decreases g, 0int {
    match g {
        GNode::Rule(n, ch) => if n == "module"@ && ch.len() == 4 && m_modname(ch[0]) && ch[1] == GNode::Val("{"@) && ch[3] == GNode::Val("}"@) { m_gram(ch[2]) } else { None },
        _ => None,
    }
}
pub open spec fn m_gram(g: GNode) -> Option<Map<Seq<char>, GE>> decreases g, 0int {
    match g { GNode::Rule(n, ch) => if n == "grammar"@ { l_defs(Map::empty(), ch) } else { None }, _ => None }
}
/// every rule written, under its own name (a name written twice is left open)
pub open spec fn l_defs(m: Map<Seq<char>, GE>, v: Seq<GNode>) -> Option<Map<Seq<char>, GE>> decreases v, 0int {
    if v.len() == 0 { Some(m) }
    else if is(v[0], "rule"@) { match m_rule(v[0]) { Some((n, e)) => if m.dom().contains(n) { None } else { l_defs(m.insert(n, e), v.skip(1)) }, None => None } }
    else { match m_module(v[0]) { Some(x) => if m.dom().disjoint(x.dom()) { l_defs(m.union_prefer_right(x), v.skip(1)) } else { None }, None => None } }
}
pub open spec fn m_main(g: GNode) -> Option<Map<Seq<char>, GE>> { match kids(g, "main"@) { Some(ch) => if ch.len() == 1 { m_gram(ch[0]) } else { None }, None => None } }
/// a list of rules and modules, whatever their names
pub open spec fn w_gram(g: GNode) -> bool decreases g, 0int { match g { GNode::Rule(n, ch) => n == "grammar"@ && w_defs(ch), _ => false } }
pub open spec fn w_module(g: GNode) -> bool decreases g, 0int {
    match g { GNode::Rule(n, ch) => n == "module"@ && ch.len() == 4 && m_modname(ch[0]) && ch[1] == GNode::Val("{"@) && ch[3] == GNode::Val("}"@) && w_gram(ch[2]), _ => false }
}
pub open spec fn w_defs(v: Seq<GNode>) -> bool decreases v, 0int {
    if v.len() == 0 { true } else { (if is(v[0], "rule"@) { m_rule(v[0]) is Some } else { is(v[0], "module"@) && w_module(v[0]) }) && w_defs(v.skip(1)) }
}
pub open spec fn w_main(g: GNode) -> bool { match kids(g, "main"@) { Some(ch) => ch.len() == 1 && w_gram(ch[0]), None => false } }
/// every escape \0xHH that is left to read is one
#[verifier::opaque]
pub open spec fn hexf(s: Seq<FNode>) -> bool { forall|i: int| 0 <= i && i + 1 < s.len() && #[trigger] s[i] == FNode::Begin("hex_char"@) ==> match s[i + 1] { FNode::Val(t) => hex_of(t) is Some, _ => true } }
pub open spec fn hexok(v: Seq<ast_flat_Node>) -> bool { hexf(fs(v)) }
pub proof fn lemma_hexskip(s: Seq<FNode>, k: int)
    requires hexf(s), 0 <= k <= s.len(),
    ensures hexf(s.skip(k)),
{
    reveal(hexf);
    let t = s.skip(k);
    assert forall|i: int| 0 <= i && i + 1 < t.len() && #[trigger] t[i] == FNode::Begin("hex_char"@) implies match t[i + 1] { FNode::Val(t) => hex_of(t) is Some, _ => true } by {
        assert(t[i] == s[i + k]);
        assert(t[i + 1] == s[i + k + 1]);
    }
}
pub proof fn lemma_hexok1(v: Seq<ast_flat_Node>, k: int)
    requires hexok(v), 0 <= k <= v.len(),
    ensures hexok(v.skip(k)),
{
    lemma_hexskip(fs(v), k);
    assert(fs(v.skip(k)) =~= fs(v).skip(k));
}
pub proof fn lemma_hexok()
    ensures
        forall|v: Seq<ast_flat_Node>, i: int| hexok(v) && 0 <= i <= v.len() ==> hexok(#[trigger] v.skip(i)),
{
    assert forall|v: Seq<ast_flat_Node>, i: int| hexok(v) && 0 <= i <= v.len() implies hexok(#[trigger] v.skip(i)) by { lemma_hexok1(v, i); }
}
pub proof fn lemma_hexhd(v: Seq<ast_flat_Node>)
    ensures hexok(v) && v.len() > 1 && f1(v[0]) == FNode::Begin("hex_char"@) ==> match f1(v[1]) { FNode::Val(t) => hex_of(t) is Some && bok(t, 3) && bidx(t, 3) == 3, _ => true },
{ reveal(hexf); if v.len() > 1 { assert(fs(v)[0] == f1(v[0]) && fs(v)[1] == f1(v[1])); match f1(v[1]) { FNode::Val(t) => { lemma_hex(t); } _ => {} } } }
// ------------------------------------------------------------------ facts about the names and about sequences
pub proof fn lemma_lits()
    ensures
        "parenth"@ != "atom"@,
        "literal"@ != "rule_name"@,
        "literal"@ != "dot"@,
        "literal"@ != "match"@,
        "rule_name"@ != "dot"@,
        "rule_name"@ != "match"@,
        "dot"@ != "match"@,
        "lit_noesc"@ != "lit_esc"@,
        "rule"@ != "module"@,
        "mchars"@ != "mbetween"@,
        "esc_char"@ != "hex_char"@,
        "rep_or_neg"@ != "error"@,
        "rep_or_neg"@ != "and"@,
        "+"@ != "*"@,
        "+"@ != "?"@,
        "*"@ != "?"@,
        "!"@ != "+"@,
        "!"@ != "*"@,
        "!"@ != "?"@,
        "_\""@ != "esc_char"@,
        "_\""@ != "hex_char"@,
        "_'"@ != "lit_noesc"@,
        "and"@ != "or"@,
        "]"@ != "["@,
{
    reveal_strlit("!");
    reveal_strlit("*");
    reveal_strlit("+");
    reveal_strlit("?");
    reveal_strlit("[");
    reveal_strlit("]");
    reveal_strlit("_'");
    reveal_strlit("_\"");
    reveal_strlit("and");
    reveal_strlit("atom");
    reveal_strlit("dot");
    reveal_strlit("error");
    reveal_strlit("esc_char");
    reveal_strlit("hex_char");
    reveal_strlit("lit_esc");
    reveal_strlit("lit_noesc");
    reveal_strlit("literal");
    reveal_strlit("match");
    reveal_strlit("mbetween");
    reveal_strlit("mchars");
    reveal_strlit("module");
    reveal_strlit("or");
    reveal_strlit("parenth");
    reveal_strlit("rep_or_neg");
    reveal_strlit("rule");
    reveal_strlit("rule_name");
    assert("parenth"@.len() != "atom"@.len());
    assert("literal"@.len() != "rule_name"@.len());
    assert("literal"@.len() != "dot"@.len());
    assert("literal"@.len() != "match"@.len());
    assert("rule_name"@.len() != "dot"@.len());
    assert("rule_name"@.len() != "match"@.len());
    assert("dot"@.len() != "match"@.len());
    assert("lit_noesc"@.len() != "lit_esc"@.len());
    assert("rule"@.len() != "module"@.len());
    assert("mchars"@.len() != "mbetween"@.len());
    assert("esc_char"@[0] != "hex_char"@[0]);
    assert("rep_or_neg"@.len() != "error"@.len());
    assert("rep_or_neg"@.len() != "and"@.len());
    assert("+"@[0] != "*"@[0]);
    assert("+"@[0] != "?"@[0]);
    assert("*"@[0] != "?"@[0]);
    assert("!"@[0] != "+"@[0]);
    assert("!"@[0] != "*"@[0]);
    assert("!"@[0] != "?"@[0]);
    assert("_\""@.len() != "esc_char"@.len());
    assert("_\""@.len() != "hex_char"@.len());
    assert("_'"@.len() != "lit_noesc"@.len());
    assert("and"@.len() != "or"@.len());
    assert("]"@[0] != "["@[0]);
}
pub proof fn lemma_cat<A>()
    ensures
        forall|a: Seq<A>| #[trigger] (a + Seq::<A>::empty()) == a,
        forall|a: Seq<A>| #[trigger] (Seq::<A>::empty() + a) == a,
        forall|a: Seq<A>, b: Seq<A>, c: Seq<A>| #[trigger] ((a + b) + c) == a + (b + c),
        forall|a: Seq<A>, x: A| #[trigger] a.push(x) == a + seq![x],
{
    assert forall|a: Seq<A>| #[trigger] (a + Seq::<A>::empty()) == a by { assert(a + Seq::<A>::empty() =~= a); }
    assert forall|a: Seq<A>| #[trigger] (Seq::<A>::empty() + a) == a by { assert(Seq::<A>::empty() + a =~= a); }
    assert forall|a: Seq<A>, b: Seq<A>, c: Seq<A>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    assert forall|a: Seq<A>, x: A| #[trigger] a.push(x) == a + seq![x] by { assert(a.push(x) =~= a + seq![x]); }
}
pub proof fn lemma_skip<A>()
    ensures
        forall|a: Seq<A>, n: int, k: int| 0 <= n && 0 <= k && n + k <= a.len() ==> #[trigger] a.skip(n).skip(k) == a.skip(n + k),
        forall|a: Seq<A>, n: int| 0 <= n && n == a.len() ==> #[trigger] a.skip(n) == Seq::<A>::empty(),
        forall|a: Seq<A>, n: int| 0 <= n && n + 1 == a.len() ==> #[trigger] a.skip(n) == seq![a[n]],
{
    assert forall|a: Seq<A>, n: int, k: int| 0 <= n && 0 <= k && n + k <= a.len() implies #[trigger] a.skip(n).skip(k) == a.skip(n + k) by { assert(a.skip(n).skip(k) =~= a.skip(n + k)); }
    assert forall|a: Seq<A>, n: int| 0 <= n && n == a.len() implies #[trigger] a.skip(n) == Seq::<A>::empty() by { assert(a.skip(n) =~= Seq::<A>::empty()); }
    assert forall|a: Seq<A>, n: int| 0 <= n && n + 1 == a.len() implies #[trigger] a.skip(n) == seq![a[n]] by { assert(a.skip(n) =~= seq![a[n]]); }
}
/// an open rule of which nothing is left
pub proof fn lemma_none(v: Seq<GNode>)
    ensures v.len() == 0 ==> v == Seq::<GNode>::empty(), v.len() == 1 ==> v == seq![v[0]],
{ if v.len() == 0 { assert(v =~= Seq::<GNode>::empty()); } else if v.len() == 1 { assert(v =~= seq![v[0]]); } }
pub proof fn lemma_gm()
    ensures
        gm(Map::<Seq<char>, parser_expression_Expression>::empty()) == Map::<Seq<char>, GE>::empty(),
        forall|m: Map<Seq<char>, parser_expression_Expression>, k: Seq<char>, e: parser_expression_Expression| gm(#[trigger] m.insert(k, e)) == gm(m).insert(k, ge(e)),
        forall|m: Map<Seq<char>, parser_expression_Expression>, x: Map<Seq<char>, parser_expression_Expression>| gm(#[trigger] m.union_prefer_right(x)) == gm(m).union_prefer_right(gm(x)),
        forall|m: Map<Seq<char>, GE>, x: Map<Seq<char>, GE>| m.dom().disjoint(x.dom()) ==> #[trigger] m.union_prefer_right(x) == x.union_prefer_right(m),
{
    assert(gm(Map::<Seq<char>, parser_expression_Expression>::empty()) =~= Map::<Seq<char>, GE>::empty());
    assert forall|m: Map<Seq<char>, parser_expression_Expression>, k: Seq<char>, e: parser_expression_Expression| gm(#[trigger] m.insert(k, e)) == gm(m).insert(k, ge(e)) by { assert(gm(m.insert(k, e)) =~= gm(m).insert(k, ge(e))); }
    assert forall|m: Map<Seq<char>, parser_expression_Expression>, x: Map<Seq<char>, parser_expression_Expression>| gm(#[trigger] m.union_prefer_right(x)) == gm(m).union_prefer_right(gm(x)) by { assert(gm(m.union_prefer_right(x)) =~= gm(m).union_prefer_right(gm(x))); }
    assert forall|m: Map<Seq<char>, GE>, x: Map<Seq<char>, GE>| m.dom().disjoint(x.dom()) implies #[trigger] m.union_prefer_right(x) == x.union_prefer_right(m) by {
        assert(m.union_prefer_right(x) =~= x.union_prefer_right(m)) by {
            assert forall|k: Seq<char>| m.dom().contains(k) implies !x.dom().contains(k) by {}
        }
    }
}
pub proof fn lemma_esc()
    ensures
        "\\n"@ == seq!['\\', 'n'], "\n"@ == seq!['\n'],
        "\\r"@ == seq!['\\', 'r'], "\r"@ == seq!['\r'],
        "\\t"@ == seq!['\\', 't'], "\t"@ == seq!['\t'],
        "\\\\"@ == seq!['\\', '\\'], "\\"@ == seq!['\\'],
        "\\\""@ == seq!['\\', '"'], "\""@ == seq!['"'],
        seq!['\\', 'n'] != seq!['\\', 'r'],
        seq!['\\', 'n'] != seq!['\\', 't'],
        seq!['\\', 'n'] != seq!['\\', '\\'],
        seq!['\\', 'n'] != seq!['\\', '"'],
        seq!['\\', 'r'] != seq!['\\', 't'],
        seq!['\\', 'r'] != seq!['\\', '\\'],
        seq!['\\', 'r'] != seq!['\\', '"'],
        seq!['\\', 't'] != seq!['\\', '\\'],
        seq!['\\', 't'] != seq!['\\', '"'],
        seq!['\\', '\\'] != seq!['\\', '"'],
{
    reveal_strlit("\\n"); assert("\\n"@ =~= seq!['\\', 'n']); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
    reveal_strlit("\\r"); assert("\\r"@ =~= seq!['\\', 'r']); reveal_strlit("\r"); assert("\r"@ =~= seq!['\r']);
    reveal_strlit("\\t"); assert("\\t"@ =~= seq!['\\', 't']); reveal_strlit("\t"); assert("\t"@ =~= seq!['\t']);
    reveal_strlit("\\\\"); assert("\\\\"@ =~= seq!['\\', '\\']); reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']);
    reveal_strlit("\\\""); assert("\\\""@ =~= seq!['\\', '"']); reveal_strlit("\""); assert("\""@ =~= seq!['"']);
    assert(seq!['\\', 'n'][1] != seq!['\\', 'r'][1]);
    assert(seq!['\\', 'n'][1] != seq!['\\', 't'][1]);
    assert(seq!['\\', 'n'][1] != seq!['\\', '\\'][1]);
    assert(seq!['\\', 'n'][1] != seq!['\\', '"'][1]);
    assert(seq!['\\', 'r'][1] != seq!['\\', 't'][1]);
    assert(seq!['\\', 'r'][1] != seq!['\\', '\\'][1]);
    assert(seq!['\\', 'r'][1] != seq!['\\', '"'][1]);
    assert(seq!['\\', 't'][1] != seq!['\\', '\\'][1]);
    assert(seq!['\\', 't'][1] != seq!['\\', '"'][1]);
    assert(seq!['\\', '\\'][1] != seq!['\\', '"'][1]);
}
pub proof fn lemma_empty_str() ensures ""@ == Seq::<char>::empty() { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
/// k ASCII characters are k bytes
pub proof fn lemma_ascii(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i] as u32) < 0x80,
    ensures blen(s.take(k)) == k, bok(s, k as nat), bidx(s, k as nat) == k,
    decreases k,
{
    if k > 0 { lemma_ascii(s, k - 1); assert(s.take(k).drop_last() =~= s.take(k - 1)); } else { assert(s.take(0).len() == 0); }
    lemma_bidx(s, k);
}
pub proof fn lemma_hex(s: Seq<char>) ensures hex_of(s) is Some ==> bok(s, 3) && bidx(s, 3) == 3
{ if hex_of(s) is Some { lemma_ascii(s, 3); } }
