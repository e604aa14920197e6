//@ spec
/// C07, C12: what every function of the parser needs
pub open spec fn pre(s: parser_Status) -> bool { st_ok(s) && pe_ok(s) && tr_ok(s) && rules_ok(hm(s.rules.0)) }
/// the state after a match
pub open spec fn post_st(a: parser_Status, s: parser_Status) -> bool { same(a, s) && st_ok(s) && a.pos.n <= s.pos.n && pe_ok(s) }
/// C10: the trace after a match
pub open spec fn post_tr(a: parser_Status, s: parser_Status) -> bool { grows(a.walking_rules@, s.walking_rules@) && tr_ok(s) }
pub open spec fn post_etr(a: parser_Status, e: parser_Error) -> bool { grows(a.walking_rules@, e.parsing_rules@) && tr(a.trace_rules, e.parsing_rules@) }
pub open spec fn rx<'a>(r: parser_expression_ResultExpr<'a>) -> parser_expression_ResultExpr<'a> { r }
