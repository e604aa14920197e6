//@ fn parser_expression_SetOfRules::add C22 C23
//@ contract
    ensures hm(vx_r.0) == hm($0.0).insert($1@, $2),
//@ fn parser_expression_RepInfo::new C22 C23
//@ contract
    ensures vx_r.expression == $0, vx_r.min.0 == $1, match vx_r.max { Some(m) => $2 == Some(m.0), None => $2 is None },
//@ fn parser_expression_MultiExpr::new C22 C23
//@ contract
    ensures vx_r.0@ == $0@,
//@ fn parser_atom_MatchRules::init C22 C23
//@ contract
    ensures vx_r.0@ == $0@, vx_r.1@ == $1@,
