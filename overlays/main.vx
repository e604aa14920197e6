//@ include gnode.vx
//@ include pos.vx
//@ import state.vx
//@ include sem.vx
//@ include pre.vx
//@ include text.vx
//@ import atom.vx
//@ import expr.vx
//@ spec
pub open spec fn main_out(s: &str, rules: &parser_expression_SetOfRules) -> Out { sem(Ctx { text: s@, rules: hm(rules.0) }, Task::Rule("main"@, 0, None)) }
pub proof fn lemma_start(s: &str)
    ensures rows(s@, 0) == 0, cols(s@, 0) == 0, lstart(s@, 0) == 0, s@.skip(0) == s@,
{ assert(s@.skip(0) =~= s@); }
//@ fn lib_parse C05
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires rules_ok(hm($1.0)),
//+TERM         nolr(Ctx { text: $0@, rules: hm($1.0) }, Task::Rule("main"@, 0, None)), //#C11
    ensures
        !(main_out($0, $1) is Div), //#C05
        match vx_r { Ok(nd) => main_out($0, $1) is Ok && answer($0@.len() as int, main_out($0, $1)) == Ok::<GNode, EV>(g1(nd)), Err(e) => true }, //#C05
        match vx_r { Ok(nd) => g1(nd) matches GNode::Rule(m, _) && m == "main"@, Err(e) => true }, //#C06
        match vx_r { Ok(nd) => y1(g1(nd)) == $0@, Err(e) => true }, //#C06
        match vx_r { Ok(nd) => true, Err(e) => answer($0@.len() as int, main_out($0, $1)) == Err::<GNode, EV>(evw(e)) }, //#C05,C08,C09
        match vx_r { Ok(nd) => true, Err(e) => err_ok($0@, e) }, //#C07
        match vx_r { Ok(nd) => true, Err(e) => tr(false, e.parsing_rules@) }, //#C10
//@ entry
    proof { lemma_start($0); lemma_whole(Ctx { text: $0@, rules: hm($1.0) }); if $0@.len() > 0 { lemma_blen_mono($0@, 0, $0@.len() as int); } assert($0@.take($0@.len() as int) =~= $0@); }
//@ fn lib_parse_debug C10
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires rules_ok(hm($1.0)),
//+TERM         nolr(Ctx { text: $0@, rules: hm($1.0) }, Task::Rule("main"@, 0, None)), //#C11
    ensures
        match vx_r { Ok(nd) => main_out($0, $1) is Ok && answer($0@.len() as int, main_out($0, $1)) == Ok::<GNode, EV>(g1(nd)), Err(e) => true }, //#C10
        match vx_r { Ok(nd) => true, Err(e) => answer($0@.len() as int, main_out($0, $1)) == Err::<GNode, EV>(evw(e)) }, //#C10
        match vx_r { Ok(nd) => true, Err(e) => err_ok($0@, e) }, //#C07,C10
        match vx_r { Ok(nd) => true, Err(e) => tr(true, e.parsing_rules@) }, //#C10
//@ entry
    proof { lemma_start($0); lemma_whole(Ctx { text: $0@, rules: hm($1.0) }); if $0@.len() > 0 { lemma_blen_mono($0@, 0, $0@.len() as int); } assert($0@.take($0@.len() as int) =~= $0@); }
