//@ include pegmean.vx
//@ import rules.vx
//@ spec
/// what the code leaves unread is what the syntax tree has after its first node
pub open spec fn adv(a: Seq<ast_flat_Node>, b: Seq<ast_flat_Node>) -> bool { nk(b) == drop1(nk(a)) }
pub open spec fn hd(a: Seq<ast_flat_Node>) -> Option<GNode> { if top(nk(a)).len() > 0 { Some(top(nk(a))[0]) } else { None } }
/// all that is left of the innermost open rule
pub open spec fn left(a: Seq<ast_flat_Node>) -> Option<Seq<GNode>> { match nk(a) { Stk::Lvl(v, n, up) => Some(v), _ => None } }
pub open spec fn then<A, B>(a: Option<A>, f: spec_fn(A) -> Option<B>) -> Option<B> { match a { Some(x) => f(x), None => None } }
pub proof fn lemma_left(a: Seq<ast_flat_Node>) ensures match left(a) { Some(v) => (v.len() == 0 ==> v == Seq::<GNode>::empty()) && (v.len() == 1 ==> v == seq![v[0]]), None => true }
{ match left(a) { Some(v) => { lemma_none(v); } None => {} } }
pub proof fn lemma_nk_top() ensures forall|v: Seq<ast_flat_Node>| #[trigger] nk(v) is Top && top(nk(v)).len() == 0 ==> v.len() == 0
{ assert forall|v: Seq<ast_flat_Node>| #[trigger] nk(v) is Top && top(nk(v)).len() == 0 implies v.len() == 0 by { lemma_nk(v); } }
/// reading went up to the end v of the innermost open rule
pub open spec fn upto(a: Seq<ast_flat_Node>, b: Seq<ast_flat_Node>, v: Seq<GNode>) -> bool {
    match (nk(a), nk(b)) { (Stk::Lvl(_, n, up), Stk::Lvl(w, n2, up2)) => w == v && n2 == n && up2 == up, _ => false }
}
/// n is in front of a, and rest is what follows
pub open spec fn at(a: Seq<ast_flat_Node>, n: FNode, rest: Seq<ast_flat_Node>) -> bool {
    (match hd(a) { Some(GNode::Val(s)) => n == FNode::Val(s) && adv(a, rest), Some(GNode::Rule(m, ch)) => n == FNode::Begin(m) && nk(rest) == Stk::Lvl(ch, m, Box::new(drop1(nk(a)))), _ => true })
    && (match nk(a) { Stk::Lvl(v, m, up) => v.len() == 0 ==> n == FNode::End(m) && nk(rest) == *up, _ => true })
}
pub open spec fn lv(e: peg_ExprOrVecExpr) -> Seq<GE> {
    match e { peg_ExprOrVecExpr::Expr(x) => seq![ge(x)], peg_ExprOrVecExpr::VExpr(v) => ges(v@), peg_ExprOrVecExpr::None => Seq::empty() }
}
pub open spec fn lv_ok(e: peg_ExprOrVecExpr) -> bool { match e { peg_ExprOrVecExpr::VExpr(v) => v@.len() >= 2, _ => true } }
pub open spec fn depth(c: peg_Context) -> nat { c.inside_mods@.len() }
pub proof fn lemma_ges(v: Seq<parser_expression_Expression>)
    ensures ges(v).len() == v.len(), forall|x: parser_expression_Expression| ges(#[trigger] v.push(x)) == ges(v).push(ge(x)),
    decreases v.len(),
{
    assert forall|x: parser_expression_Expression| ges(#[trigger] v.push(x)) == ges(v).push(ge(x)) by { assert(v.push(x).drop_last() =~= v); }
    if v.len() > 0 { lemma_ges(v.drop_last()); }
}
pub proof fn lemma_ges_len() ensures forall|v: Seq<parser_expression_Expression>| #[trigger] ges(v).len() == v.len()
{ assert forall|v: Seq<parser_expression_Expression>| #[trigger] ges(v).len() == v.len() by { lemma_ges(v); } }
pub proof fn lemma_ges2() ensures forall|v: Seq<parser_expression_Expression>| v.len() == 2 ==> #[trigger] ges(v) == seq![ge(v[0])] + seq![ge(v[1])]
{ assert forall|v: Seq<parser_expression_Expression>| v.len() == 2 implies #[trigger] ges(v) == seq![ge(v[0])] + seq![ge(v[1])] by {
    let e = Seq::<parser_expression_Expression>::empty(); lemma_ges(e); lemma_ges(e.push(v[0])); assert(v =~= e.push(v[0]).push(v[1])); assert(ges(v) =~= seq![ge(v[0])] + seq![ge(v[1])]); } }
pub proof fn lemma_lv(e: peg_ExprOrVecExpr)
    ensures match e { peg_ExprOrVecExpr::VExpr(v) => forall|x: parser_expression_Expression| ges(#[trigger] v@.push(x)) == ges(v@).push(ge(x)), _ => true },
{ match e { peg_ExprOrVecExpr::VExpr(v) => { lemma_ges(v@); } _ => {} } }
//@ fn peg_Error::ipush C24
//@ contract
    ensures true,
//@ fn ast_flat_split_first_nodes C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(q) => (hexok($0@) ==> hexok(q.1@)), Err(_) => true },
        match vx_r { Ok((n, rest)) => $0@.len() > 0 && *n == $0@[0] && rest@ == $0@.skip(1) && at($0@, f1(*n), rest@), Err(_) => $0@.len() == 0 && hd($0@) is None && left($0@) is None },
//@ entry
    proof { lemma_hexok(); lemma_nk($0@); }
//@ fn ast_flat_get_node_val C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(s) => f1(*$0) == FNode::Val(s@), Err(_) => !(*$0 is Val) },
//@ fn ast_flat_get_nodename C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(s) => f1(*$0) == FNode::Begin(s@) || f1(*$0) == FNode::End(s@), Err(_) => !(*$0 is BeginRule) && !(*$0 is EndRule) },
//@ fn ast_flat_peek_first_node C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(n) => $0@.len() > 0 && *n == $0@[0], Err(_) => $0@.len() == 0 },
        match hd($0@) { Some(g) => (vx_r matches Ok(x) && match g { GNode::Val(s) => f1(*x) == FNode::Val(s), GNode::Rule(n, _) => f1(*x) == FNode::Begin(n), GNode::EOF => true }), None => true },
        match left($0@) { Some(v) => v.len() == 0 ==> (vx_r matches Ok(x) && f1(*x) == FNode::End(nk($0@)->Lvl_1)), None => true },
//@ entry
    proof { lemma_nk($0@); }
//@ fn ast_flat_consume_val C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(q) => (hexok($0@) ==> hexok(q.1@)) && $0@.len() > 0 && f1($0@[0]) == FNode::Val(q.0@) && q.1@ == $0@.skip(1), Err(_) => true },
        match hd($0@) { Some(GNode::Val(s)) => (vx_r matches Ok((t, rest)) && t@ == s && adv($0@, rest@)), Some(GNode::Rule(_, _)) => vx_r is Err, _ => true },
        match left($0@) { Some(v) => v.len() == 0 ==> vx_r is Err, None => true },
//@ entry
    proof { lemma_hexok(); lemma_nk($0@); }
//@ fn ast_flat_consume_this_value C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(q) => (hexok($1@) ==> hexok(q@)), Err(_) => true },
         match vx_r { Ok(q) => q@.len() < $1@.len(), Err(_) => true },
        match hd($1@) { Some(GNode::Val(s)) => if s == $0@ { vx_r matches Ok(rest) && adv($1@, rest@) } else { vx_r is Err }, Some(GNode::Rule(_, _)) => vx_r is Err, _ => true },
        match left($1@) { Some(v) => v.len() == 0 ==> vx_r is Err, None => true },
//@ entry
    proof { lemma_hexok(); lemma_nk($1@); }
//@ fn ast_flat_consume_node_start_rule_name C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(q) => (hexok($1@) ==> hexok(q@)) && $1@.len() > 0 && f1($1@[0]) == FNode::Begin($0@) && q@ == $1@.skip(1), Err(_) => true },
        match hd($1@) { Some(GNode::Rule(n, ch)) => if n == $0@ { vx_r matches Ok(rest) && nk(rest@) == Stk::Lvl(ch, $0@, Box::new(drop1(nk($1@)))) } else { vx_r is Err }, Some(GNode::Val(_)) => vx_r is Err, _ => true },
        match left($1@) { Some(v) => v.len() == 0 ==> vx_r is Err, None => true },
//@ entry
    proof { lemma_hexok(); lemma_nk($1@); }
//@ fn ast_flat_consume_node_end_rule_name C19 C20 C21 C24
//@ contract
    ensures
        match vx_r { Ok(q) => (hexok($1@) ==> hexok(q@)), Err(_) => true },
         match vx_r { Ok(q) => q@.len() < $1@.len(), Err(_) => true },
        match nk($1@) { Stk::Lvl(v, n, up) => if v.len() == 0 && n == $0@ { vx_r matches Ok(rest) && nk(rest@) == *up } else { vx_r is Err }, _ => true },
//@ entry
    proof { lemma_hexok(); lemma_nk($1@); }
//@ fn peg_consume_quote C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.0@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.0@.len() < $0@.len(), Err(_) => true }, //#C24
        then(hd($0@), |g: GNode| leaf(g, "_\""@)) == Some("\""@) ==> (vx_r matches Ok((rest, cx)) && adv($0@, rest@) && depth(cx) == depth($1)), //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); }
//@ fn peg_consume_single_quote C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.0@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.0@.len() < $0@.len(), Err(_) => true }, //#C24
        then(hd($0@), |g: GNode| leaf(g, "_'"@)) == Some("'"@) ==> (vx_r matches Ok((rest, cx)) && adv($0@, rest@) && depth(cx) == depth($1)), //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); }
//@ fn peg_consume_symbol C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| leaf(g, "symbol"@)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_rule_name__rec_consume_dot_symbol C19 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() <= $1@.len(), Err(_) => true }, //#C24
        match then(left($1@), |v: Seq<GNode>| l_dots(v)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == $0@ + m && upto($1@, rest@, Seq::empty()) && depth(cx) == depth($2)), None => true }, //#C19
     decreases $1@.len(), 2int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_left($1@); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_rule_name C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_name(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_empty_str(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_esc_char C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| then(leaf(g, "esc_char"@), |s: Seq<char>| esc_of(s))) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_esc(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_hex_char C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| then(leaf(g, "hex_char"@), |s: Seq<char>| hex_of(s))) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_hexhd($0@); match then(hd($0@), |g: GNode| leaf(g, "hex_char"@)) { Some(s) => { lemma_hex(s); } None => {} } lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_literal_no_esc C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_noesc(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_empty_str(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_literal_esc__rec_consume_lit_esc_ch C20 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() <= $1@.len(), Err(_) => true }, //#C24
        match then(left($1@), |v: Seq<GNode>| l_esc(v)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == $0@ + m && (left(rest@) matches Some(w) && w.len() == 1 && leaf(w[0], "_\""@) == Some("\""@) && upto($1@, rest@, w)) && depth(cx) == depth($2)), None => true }, //#C20
     decreases $1@.len(), 2int, //#C24
//@ entry
    hide(esc_of); hide(hex_of);
    proof { lemma_hexok(); lemma_left($1@); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_literal_esc C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_esc(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_empty_str(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_literal_string C20 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_lit(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C20
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_mchars C21 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| leaf(g, "mchars"@)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C21
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); }
//@ fn peg_consume_mbetween C21 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| then(leaf(g, "mbetween"@), |s: Seq<char>| if s.len() == 3 { Some((s[0], s[2])) } else { None })) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C21
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); lemma_cat::<(char, char)>(); }
//@ fn peg_consume_match__rec_consume_mbetween C21 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() <= $1@.len(), Err(_) => true }, //#C24
        match then(left($1@), |v: Seq<GNode>| l_btw(v)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x@ == $0@ + m && upto($1@, rest@, seq![GNode::Val("]"@)]) && depth(cx) == depth($2)), None => true }, //#C21
     decreases $1@.len(), 2int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_left($1@); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); lemma_cat::<(char, char)>(); }
//@ fn peg_consume_match C21 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_match(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C21
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_empty_str(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<char>(); lemma_cat::<(char, char)>(); }
//@ fn peg_consume_atom C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_atom(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_parenth C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_parenth(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_atom_or_par C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_par(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_rep_or_neg C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_rep(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_error C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_error(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == GE::Error(m) && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); }
//@ fn peg_ExprOrVecExpr::ipush C19 C24
//@ contract
    ensures
        lv_ok($0) ==> lv_ok(vx_r) && lv(vx_r) == lv($0).push(ge($1)),
//@ entry
    proof { lemma_lv($0); lemma_ges2(); lemma_cat::<GE>(); }
//@ fn peg_consume_and__rec_consume_and C19 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $1@.len(), Err(_) => true }, //#C24
        lv_ok($0) ==> match then(hd($1@), |g: GNode| l_and(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && lv_ok(x) && lv(x) == lv($0) + m && adv($1@, rest@) && depth(cx) == depth($2)), None => true }, //#C19
     decreases $1@.len(), 1int, //#C24
//@ entry
    hide(lv); hide(ge); hide(ges);
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_and__rec_consume_next_ands C19 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() <= $1@.len(), Err(_) => true }, //#C24
        lv_ok($0) ==> match then(left($1@), |v: Seq<GNode>| l_ands(v)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && lv_ok(x) && lv(x) == lv($0) + m && upto($1@, rest@, Seq::empty()) && depth(cx) == depth($2)), None => true }, //#C19
     decreases $1@.len(), 2int, //#C24
//@ entry
    hide(lv); hide(ge); hide(ges);
    proof { lemma_hexok(); lemma_left($1@); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_and C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_and(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 3int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_ges_len(); }
//@ fn peg_consume_or__rec_consume_or C19 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $1@.len(), Err(_) => true }, //#C24
        lv_ok($0) ==> match then(hd($1@), |g: GNode| l_or(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && lv_ok(x) && lv(x) == lv($0) + m && adv($1@, rest@) && depth(cx) == depth($2)), None => true }, //#C19
     decreases $1@.len(), 2int, //#C24
//@ entry
    hide(lv); hide(ge); hide(ges);
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); }
//@ fn peg_consume_or C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_or(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 3int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_ges_len(); }
//@ fn peg_consume_peg_expr C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_expr(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && ge(x) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); }
//@ fn peg_consume_rule C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_rule(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && x.0@ == m.0 && ge(x.1) == m.1 && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); }
//@ fn peg_consume_module C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_module(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && gm(hm(x.0)) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
        match hd($0@) { Some(g) => w_module(g) ==> (vx_r matches Ok((x, rest, cx)) && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C24
     decreases $0@.len(), 1int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_gm(); }
//@ fn peg_consume_grammar__rec_consume_rules_or_modules C19 C24
//@ contract
    requires hexok($1@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() <= $1@.len(), Err(_) => true }, //#C24
        match then(left($1@), |v: Seq<GNode>| l_defs(gm(hm($0.0)), v)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && gm(hm(x.0)) == m && upto($1@, rest@, Seq::empty()) && depth(cx) == depth($2)), None => true }, //#C19
        match left($1@) { Some(v) => w_defs(v) ==> (vx_r matches Ok((x, rest, cx)) && upto($1@, rest@, Seq::empty()) && depth(cx) == depth($2)), None => true }, //#C24
     decreases $1@.len(), 7int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_left($1@); lemma_lits(); lemma_skip::<GNode>(); lemma_cat::<GE>(); lemma_gm(); }
//@ fn peg_consume_grammar C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_gram(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && gm(hm(x.0)) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
        match hd($0@) { Some(g) => w_gram(g) ==> (vx_r matches Ok((x, rest, cx)) && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C24
     decreases $0@.len(), 8int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_gm(); }
//@ fn peg_consume_main C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match vx_r { Ok(q) => hexok(q.1@), Err(_) => true }, //#C24
         match vx_r { Ok(q) => q.1@.len() < $0@.len(), Err(_) => true }, //#C24
        match then(hd($0@), |g: GNode| m_main(g)) { Some(m) => (vx_r matches Ok((x, rest, cx)) && gm(hm(x.0)) == m && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C19
        match hd($0@) { Some(g) => w_main(g) ==> (vx_r matches Ok((x, rest, cx)) && adv($0@, rest@) && depth(cx) == depth($1)), None => true }, //#C24
     decreases $0@.len(), 9int, //#C24
//@ entry
    proof { lemma_hexok(); lemma_lits(); lemma_skip::<GNode>(); lemma_gm(); }
//@ fn peg_rules_from_flat_ast C19 C24
//@ contract
    requires hexok($0@), //#C24
    ensures
        match nk($0@) { Stk::Top(v) => v.len() == 1 ==> match m_main(v[0]) { Some(m) => (vx_r matches Ok(x) && gm(hm(x.0)) == m), None => true }, _ => true }, //#C19
        match nk($0@) { Stk::Top(v) => v.len() == 1 && w_main(v[0]) ==> vx_r is Ok, _ => true }, //#C24
//@ entry
    proof { lemma_hexok(); lemma_nk_top(); lemma_lits(); lemma_skip::<GNode>(); lemma_gm(); }
