//@ define TERM
//@ import lrec.vx
//@ import main.vx
//@ import ast.vx
//@ import flatten.vx
//@ import pegrd.vx
//@ import shape.vx
//@ import $gram2.vx
//@ include core.vx
//@ include ends.vx
//@ from parser_Error peg_Error C24 = r == peg_Error::Parser(a)
//@ spec
/// what a text is read as: the meaning of its tree by the published grammar
pub open spec fn reads(s: Seq<char>, r: Map<Seq<char>, Ex>, v: Result<parser_expression_SetOfRules, peg_Error>) -> bool {
    match pout(s, r) {
        Ok(t) => n_main(core(t)).no_duplicates() ==> (v matches Ok(x) && Some(gm(hm(x.0))) == m_main(core(t))),
        Err(_) => v is Err,
    }
}
/// which texts are read: those the published grammar matches, and for any other the error is that of the match
pub open spec fn accepts(s: Seq<char>, r: Map<Seq<char>, Ex>, v: Result<parser_expression_SetOfRules, peg_Error>) -> bool {
    match pout(s, r) {
        Ok(_) => v is Ok,
        Err(e) => v matches Err(peg_Error::Parser(pe)) && evw(pe) == e,
    }
}
pub proof fn lemma_core(g: GNode)
    ensures no_eof(g) ==> st(gf(g)) == Stk::Top(seq![g]),
{
    reveal_with_fuel(st, 2);
    let e = Seq::<FNode>::empty();
    if no_eof(g) { assert(gf(g) + e =~= gf(g)); lemma_st1(g, e); assert(seq![g] + Seq::<GNode>::empty() =~= seq![g]); }
}
pub proof fn lemma_tree(s: Seq<char>, r: Map<Seq<char>, Ex>, t: GNode)
    requires published(r), pdone(s, r), pout(s, r) == Ok::<GNode, EV>(t),
    ensures
        w_main(core(t)), hexf(gf(core(t))), st(gf(core(t))) == Stk::Top(seq![core(t)]),
        n_main(core(t)).no_duplicates() ==> m_main(core(t)) is Some,
{
    hide(published); hide(core); hide(w_main); hide(m_main); hide(n_main);
    lemma_shape(s, r, t);
    lemma_core(core(t));
}
/// the tree a text makes is one that is read
pub open spec fn fits(s: Seq<char>, r: Map<Seq<char>, Ex>) -> bool {
    match pout(s, r) {
        Ok(t) => w_main(core(t)) && hexf(gf(core(t))) && st(gf(core(t))) == Stk::Top(seq![core(t)]) && (n_main(core(t)).no_duplicates() ==> m_main(core(t)) is Some),
        Err(_) => true,
    }
}
pub proof fn lemma_top(s: Seq<char>)
    ensures
        forall|v: Seq<&str>| v.len() == 3 && v[0]@ == "_"@ && v[1]@ == "_1"@ && v[2]@ == "_eol"@ ==> #[trigger] names(v) == skipped(),
        forall|m: Map<Seq<char>, Ex>| #[trigger] published(m) ==> rules_ok(m),
        forall|r: Map<Seq<char>, Ex>| #[trigger] published(r) ==> nolr(Ctx { text: s, rules: r }, Task::Rule("main"@, 0, None)),
        forall|r: Map<Seq<char>, Ex>| #[trigger] published(r) && pdone(s, r) ==> fits(s, r),
{
    hide(published); hide(core); hide(w_main); hide(m_main); hide(n_main); hide(rules_ok); hide(pdone); hide(pout);
    assert forall|v: Seq<&str>| v.len() == 3 && v[0]@ == "_"@ && v[1]@ == "_1"@ && v[2]@ == "_eol"@ implies #[trigger] names(v) == skipped() by { assert(names(v) =~= skipped()); }
    assert forall|m: Map<Seq<char>, Ex>| #[trigger] published(m) implies rules_ok(m) by { lemma_rules_ok(m); }
    assert forall|r: Map<Seq<char>, Ex>| #[trigger] published(r) implies nolr(Ctx { text: s, rules: r }, Task::Rule("main"@, 0, None)) by { lemma_peg_ends(s, r); }
    assert forall|r: Map<Seq<char>, Ex>| #[trigger] published(r) && pdone(s, r) implies fits(s, r) by { match pout(s, r) { Ok(t) => { lemma_tree(s, r, t); } Err(_) => {} } }
}
//@ fn peg_rules_from_peg C19 C24
//@ contract
    ensures
        exists|r: Map<Seq<char>, Ex>| #[trigger] published(r) && pdone($0@, r) && reads($0@, r, vx_r), //#C19
        exists|r: Map<Seq<char>, Ex>| #[trigger] published(r) && pdone($0@, r) && accepts($0@, r, vx_r), //#C24
//@ entry
    hide(published); hide(w_main); hide(m_main); hide(n_main); hide(rules_ok);
    proof { lemma_top($0@); }
