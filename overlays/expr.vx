//@ include gnode.vx
//@ include pos.vx
//@ import state.vx
//@ include sem.vx
//@ include pre.vx
//+TERM //@ include reach.vx
//@ import atom.vx

//@ fn parser_expression_parse_rule_name C01
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires st_ok($0), pe_ok($0), rules_ok(hm($0.rules.0)),
        tr_ok($0) || tr_start($0) && $1@ == "main"@, //#C10
//+TERM         nolr(ctx($0), Task::Rule($1@, $0.pos.n as int, pev($0))), //#C11
    ensures
        match vx_r { Ok((s, nd)) => sem(ctx($0), Task::Rule($1@, $0.pos.n as int, pev($0))) == Out::Ok(s.pos.n as int, pev(s), seq![g1(nd)]), Err(e) => true }, //#C01,C05
        match vx_r { Ok((s, nd)) => true, Err(e) => sem(ctx($0), Task::Rule($1@, $0.pos.n as int, pev($0))) == Out::Err(evw(e)) }, //#C01,C08,C09
        match vx_r { Ok((s, nd)) => post_st($0, s), Err(e) => true }, //#C01,C07
        match vx_r { Ok((s, nd)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, nd)) => tr_ok(s) && entered($0, $1@, s.walking_rules@), Err(e) => true }, //#C10
        match vx_r { Ok((s, nd)) => true, Err(e) => entered($0, $1@, e.parsing_rules@) && tr($0.trace_rules, e.parsing_rules@) }, //#C10
//+TERM     decreases chars_left(ctx($0), Task::Rule($1@, $0.pos.n as int, pev($0))), 2 * rk(ctx($0), Task::Rule($1@, $0.pos.n as int, pev($0))) + 0int, arbitrary::<Ex>(), 0int, //#C11
//@ entry
//+TERM     proof { if ctx($0).rules.dom().contains($1@) { lemma_enter(ctx($0), $1@, $0.pos.n as int, pev($0)); } }
    proof {
        let w = $0.walking_rules@;
        lemma_rule(ctx($0), $1@, $0.pos.n as int, pev($0));
        lemma_grows(w);
        assert forall|x: String| #![trigger w.push(x)] w.push(x)[w.len() as int] == x && grows(w, w.push(x)) by { lemma_grows(w); }
        assert forall|x: String, b: Seq<String>| #![trigger grows(w.push(x), b)] grows(w.push(x), b) implies grows(w, b) && b.len() > w.len() && b[w.len() as int] == x by {
            lemma_grows(w.push(x)); lemma_grows(w); assert(w.push(x)[w.len() as int] == x); assert(grows(w, w.push(x)));
            assert(b.take(w.push(x).len() as int)[w.len() as int] == b[w.len() as int]);
        }
        reveal_strlit("r:"); reveal_strlit("main"); reveal_strlit("r:main"); assert("r:"@ + "main"@ =~= "r:main"@);
        assert forall|x: String| #![trigger w.push(x)] $0.trace_rules && tr_start($0) && x@ == "r:"@ + "main"@ implies tr(true, w.push(x)) by { assert(w.push(x)[0] == x); }
        assert forall|x: String| #![trigger w.push(x)] $0.trace_rules && tr_ok($0) implies tr(true, w.push(x)) by { lemma_grows(w); }
    }

//@ fn parser_expression_parse_expr C01
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires pre($0), expr_ok(*$1),
//+TERM         nolr(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))), //#C11
    ensures
        match vx_r { Ok((s, ns)) => sem(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true }, //#C01,C05
        match vx_r { Ok((s, ns)) => true, Err(e) => sem(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))) == Out::Err(evw(e)) }, //#C01,C08,C09
        match vx_r { Ok((s, ns)) => post_st($0, s), Err(e) => true }, //#C01,C07
        match vx_r { Ok((s, ns)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, ns)) => post_tr($0, s), Err(e) => true }, //#C10
        match vx_r { Ok((s, ns)) => true, Err(e) => post_etr($0, e) }, //#C10
//+TERM     decreases chars_left(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))), 2 * rk(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))) + 1int, *$1, 0int, //#C11
//@ entry
//+TERM     proof { lemma_next(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0)), Task::Expr(*$1, $0.pos.n as int, pev($0))); }
    proof {
        lemma_expr(ctx($0), *$1, $0.pos.n as int, pev($0));
        lemma_grows($0.walking_rules@);
        assert forall|x: ast_Node, v: Vec<ast_Node>| #![trigger seq![x], gs(v@)] v@ == seq![x] implies gs(v@) == seq![g1(x)] by { lemma_gs_push(Seq::empty(), x); assert(Seq::<ast_Node>::empty().push(x) =~= seq![x]); }
    }

//@ fn parser_expression_parse_and C01
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires pre($0), exprs_ok($1.0@),
//+TERM         nolr(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))), //#C11
    ensures
        match vx_r { Ok((s, ns)) => sem(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true }, //#C01,C05
        match vx_r { Ok((s, ns)) => true, Err(e) => sem(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))) == Out::Err(evw(e)) }, //#C01,C08,C09
        match vx_r { Ok((s, ns)) => post_st($0, s), Err(e) => true }, //#C01,C07
        match vx_r { Ok((s, ns)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, ns)) => post_tr($0, s), Err(e) => true }, //#C10
        match vx_r { Ok((s, ns)) => true, Err(e) => post_etr($0, e) }, //#C10
//+TERM     decreases chars_left(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))), 2 * rk(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))) + 1int, *$1, 0int, //#C11
//@ entry
//+TERM     proof { lemma_reach_refl(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))); assert forall|i: int| 0 <= i < $1.0@.len() implies decreases_to!($1 => #[trigger] $1.0@[i]) by { assert(decreases_to!($1.0 => $1.0@[i])); } }
    proof { lemma_prepend(Seq::empty(), Seq::empty(), sem(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0)))); lemma_grows($0.walking_rules@); }
//@ loop 0 tail_call
    invariant
        match vx_tc0 { TailCall::Call(a) => { cont(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0)), gs(a.2@), Task::Seq(a.1@, a.0.pos.n as int, pev(a.0))) } TailCall::Return(r) => true }, //#C01,C05
        match vx_tc0 { TailCall::Call(a) => { post_st($0, a.0) } TailCall::Return(r) => true }, //#C01,C07
        match vx_tc0 { TailCall::Call(a) => { post_tr($0, a.0) } TailCall::Return(r) => true }, //#C10
        match vx_tc0 { TailCall::Call(a) => { exprs_ok(a.1@) } TailCall::Return(r) => true }, //#C12
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => sem(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true } } TailCall::Call(a) => true }, //#C01,C05
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => sem(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0))) == Out::Err(evw(e)) } } TailCall::Call(a) => true }, //#C01,C08,C09
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => post_st($0, s), Err(e) => true } } TailCall::Call(a) => true }, //#C01,C07
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => err_ok(txt($0), e) } } TailCall::Call(a) => true }, //#C07
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => post_tr($0, s), Err(e) => true } } TailCall::Call(a) => true }, //#C10
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => post_etr($0, e) } } TailCall::Call(a) => true }, //#C10
//+TERM         match vx_tc0 { TailCall::Call(a) => { reach(ctx($0), Task::Seq($1.0@, $0.pos.n as int, pev($0)), Task::Seq(a.1@, a.0.pos.n as int, pev(a.0))) } TailCall::Return(r) => true }, //#C11
//+TERM         match vx_tc0 { TailCall::Call(a) => { forall|i: int| 0 <= i < a.1@.len() ==> decreases_to!($1 => #[trigger] a.1@[i]) } TailCall::Return(r) => true }, //#C11
//+TERM     decreases (match vx_tc0 { TailCall::Call(a) => { a.1@.len() + 1 } TailCall::Return(r) => 0 }), //#C11
//@ loop-body 0
    let ghost vx_g = vx_tc0;
    proof {
        match vx_g { TailCall::Call(a) => {
            let c = ctx($0); let n = a.0.pos.n as int; let p = pev(a.0);
            lemma_seq(c, a.1@, n, p); lemma_grows($0.walking_rules@); lemma_grows(a.0.walking_rules@); lemma_gs_grow(a.2@);
            if a.1@.len() > 0 { match sem(c, Task::Expr(a.1@[0], n, p)) { Out::Ok(n1, p1, ns) => { lemma_prepend(gs(a.2@), ns, sem(c, Task::Seq(a.1@.skip(1), n1, p1))); } _ => {} } }
            else { assert(gs(a.2@) + Seq::<GNode>::empty() =~= gs(a.2@)); }
//+TERM             lemma_next(c, Task::Seq($1.0@, $0.pos.n as int, pev($0)), Task::Seq(a.1@, n, p));
        } _ => {} }
    }

//@ fn parser_expression_parse_or C01 C09
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires pre(*$0), exprs_ok($1.0@),
//+TERM         nolr(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)), //#C11
    ensures
        match vx_r { Ok((s, ns)) => sem(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true }, //#C01,C05
        match vx_r { Ok((s, ns)) => true, Err(e) => sem(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)) == Out::Err(evw(e)) }, //#C01,C08,C09
        match vx_r { Ok((s, ns)) => post_st(*$0, s), Err(e) => true }, //#C01,C07
        match vx_r { Ok((s, ns)) => true, Err(e) => err_ok(txt(*$0), e) }, //#C07
        match vx_r { Ok((s, ns)) => post_tr(*$0, s), Err(e) => true }, //#C10
        match vx_r { Ok((s, ns)) => true, Err(e) => post_etr(*$0, e) }, //#C10
//+TERM     decreases chars_left(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)), 2 * rk(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)) + 1int, *$1, 0int, //#C11
//@ entry
//+TERM     proof { lemma_reach_refl(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)); assert forall|i: int| 0 <= i < $1.0@.len() implies decreases_to!($1 => #[trigger] $1.0@[i]) by { assert(decreases_to!($1.0 => $1.0@[i])); } }
    proof { lemma_grows($0.walking_rules@); }
//@ loop 0 tail_call
    invariant
        match vx_tc0 { TailCall::Call(a) => { ({ let b = match a.2 { Some(e) => Some(evw(e)), None => None }; cont(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None), Seq::empty(), Task::Alt(a.1@, $0.pos.n as int, pev(*$0), b)) }) } TailCall::Return(r) => true }, //#C01,C05,C09
        match vx_tc0 { TailCall::Call(a) => { a.2.is_some() ==> err_ok(txt(*$0), a.2.unwrap()) } TailCall::Return(r) => true }, //#C07
        match vx_tc0 { TailCall::Call(a) => { a.2.is_some() ==> a.2.unwrap().priority is Normal } TailCall::Return(r) => true }, //#C08
        match vx_tc0 { TailCall::Call(a) => { a.2.is_some() ==> post_etr(*$0, a.2.unwrap()) } TailCall::Return(r) => true }, //#C10
        match vx_tc0 { TailCall::Call(a) => { a.0 == *$0 } TailCall::Return(r) => true }, //#C01
        match vx_tc0 { TailCall::Call(a) => { exprs_ok(a.1@) } TailCall::Return(r) => true }, //#C12
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => sem(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true } } TailCall::Call(a) => true }, //#C01,C05
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => sem(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None)) == Out::Err(evw(e)) } } TailCall::Call(a) => true }, //#C01,C08,C09
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => post_st(*$0, s), Err(e) => true } } TailCall::Call(a) => true }, //#C01,C07
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => err_ok(txt(*$0), e) } } TailCall::Call(a) => true }, //#C07
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => post_tr(*$0, s), Err(e) => true } } TailCall::Call(a) => true }, //#C10
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => post_etr(*$0, e) } } TailCall::Call(a) => true }, //#C10
//+TERM         match vx_tc0 { TailCall::Call(a) => { reach(ctx(*$0), Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None), Task::Alt(a.1@, $0.pos.n as int, pev(*$0), match a.2 { Some(e) => Some(evw(e)), None => None })) } TailCall::Return(r) => true }, //#C11
//+TERM         match vx_tc0 { TailCall::Call(a) => { forall|i: int| 0 <= i < a.1@.len() ==> decreases_to!($1 => #[trigger] a.1@[i]) } TailCall::Return(r) => true }, //#C11
//+TERM     decreases (match vx_tc0 { TailCall::Call(a) => { a.1@.len() + 1 } TailCall::Return(r) => 0 }), //#C11
//@ loop-body 0
    let ghost vx_g = vx_tc0;
    proof {
        match vx_g { TailCall::Call(a) => {
            let c = ctx(*$0); let n = $0.pos.n as int; let p = pev(*$0);
            let b = match a.2 { Some(e) => Some(evw(e)), None => None };
            lemma_alt(c, a.1@, n, p, b); lemma_grows($0.walking_rules@); lemma_prepend(Seq::empty(), Seq::empty(), sem(c, Task::Alt(a.1@, n, p, b)));
            if a.1@.len() > 0 { match sem(c, Task::Expr(a.1@[0], n, p)) { Out::Ok(n1, p1, ns) => { assert(Seq::<GNode>::empty() + ns =~= ns); }
                Out::Err(e) => { lemma_prepend(Seq::empty(), Seq::empty(), sem(c, Task::Alt(a.1@.skip(1), n, p, Some(deeper(b, e))))); } _ => {} } }
//+TERM             lemma_next(c, Task::Alt($1.0@, $0.pos.n as int, pev(*$0), None), Task::Alt(a.1@, n, p, b));
        } _ => {} }
    }

//@ fn parser_expression_parse_not C03
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires pre($0), expr_ok(*$1),
//+TERM         nolr(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))), //#C11
    ensures
        match vx_r { Ok((s, ns)) => sem(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))) is Err && s == $0 && ns@.len() == 0, Err(e) => true }, //#C03
        match vx_r { Ok((s, ns)) => true, Err(e) => sem(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))) is Ok && evw(e) == err_n($0.pos.n as int, "not"@) }, //#C03
        match vx_r { Ok((s, ns)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, ns)) => true, Err(e) => post_etr($0, e) }, //#C10
//+TERM     decreases chars_left(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))), 2 * rk(ctx($0), Task::Expr(*$1, $0.pos.n as int, pev($0))) + 1int, *$1, 1int, //#C11
//@ entry
    proof { lemma_grows($0.walking_rules@); }

//@ fn parser_expression_parse_repeat C02
//@ attr
#[verifier::exec_allows_no_decreases_clause] //-TERM
//@ contract
    requires pre($0), expr_ok(*$1.expression), $1.min.0 <= isize::MAX,
//+TERM         nolr(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))), //#C11
    ensures
        match vx_r { Ok((s, ns)) => sem(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true }, //#C02,C05
        match vx_r { Ok((s, ns)) => true, Err(e) => sem(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))) == Out::Err(evw(e)) }, //#C02,C08,C09
        match vx_r { Ok((s, ns)) => post_st($0, s), Err(e) => true }, //#C02,C07
        match vx_r { Ok((s, ns)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, ns)) => post_tr($0, s), Err(e) => true }, //#C10
        match vx_r { Ok((s, ns)) => true, Err(e) => post_etr($0, e) }, //#C10
//+TERM     decreases chars_left(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))), 2 * rk(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))) + 1int, *$1, 0int, //#C11
//@ entry
//+TERM     proof { lemma_reach_refl(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))); }
    proof {
        lemma_prepend(Seq::empty(), Seq::empty(), sem(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0)))); lemma_grows($0.walking_rules@);
        axiom_str_len($0.text2parse); lemma_blen_mono(txt($0), 0, txt($0).len() as int); assert(txt($0).take(txt($0).len() as int) =~= txt($0));
    }
//@ loop 0 tail_call
    invariant
        match vx_tc0 { TailCall::Call(a) => { cont(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0)), gs(a.2@), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), a.1 as nat, a.0.pos.n as int, pev(a.0))) } TailCall::Return(r) => true }, //#C02,C05
        match vx_tc0 { TailCall::Call(a) => { post_st($0, a.0) } TailCall::Return(r) => true }, //#C02,C07
        match vx_tc0 { TailCall::Call(a) => { post_tr($0, a.0) } TailCall::Return(r) => true }, //#C10
        match vx_tc0 { TailCall::Call(a) => { $1.max.is_none() ==> a.1 <= $1.min.0 + (a.0.pos.n - $0.pos.n) } TailCall::Return(r) => true }, //#C12
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => sem(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))) == Out::Ok(s.pos.n as int, pev(s), gs(ns@)), Err(e) => true } } TailCall::Call(a) => true }, //#C02,C05
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => sem(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0))) == Out::Err(evw(e)) } } TailCall::Call(a) => true }, //#C02,C08,C09
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => post_st($0, s), Err(e) => true } } TailCall::Call(a) => true }, //#C02,C07
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => err_ok(txt($0), e) } } TailCall::Call(a) => true }, //#C07
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => post_tr($0, s), Err(e) => true } } TailCall::Call(a) => true }, //#C10
        match vx_tc0 { TailCall::Return(r) => { match rx(r) { Ok((s, ns)) => true, Err(e) => post_etr($0, e) } } TailCall::Call(a) => true }, //#C10
//+TERM         match vx_tc0 { TailCall::Call(a) => { reach(ctx($0), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0)), Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), a.1 as nat, a.0.pos.n as int, pev(a.0))) } TailCall::Return(r) => true }, //#C11
//+TERM     decreases (match vx_tc0 { TailCall::Call(a) => { match $1.max { Some(m) => if a.1 < m.0 { m.0 - a.1 } else { 0 }, None => txt($0).len() - a.0.pos.n } } TailCall::Return(r) => 0 }), (match vx_tc0 { TailCall::Call(a) => { if a.1 < $1.min.0 { $1.min.0 - a.1 + 1 } else { 1 } } TailCall::Return(r) => 0 }), //#C11
//@ loop-body 0
    let ghost vx_g = vx_tc0;
    proof {
        match vx_g { TailCall::Call(a) => {
            let c = ctx($0); let n = a.0.pos.n as int; let p = pev(a.0);
            let e = *$1.expression; let mi = $1.min.0 as nat; let ma = maxof($1.max); let k = a.1 as nat;
            lemma_rep(c, e, mi, ma, k, n, p); lemma_grows($0.walking_rules@); lemma_grows(a.0.walking_rules@); lemma_gs_grow(a.2@);
            assert(gs(a.2@) + Seq::<GNode>::empty() =~= gs(a.2@));
            match sem(c, Task::Expr(e, n, p)) { Out::Ok(n1, p1, ns) => { lemma_prepend(gs(a.2@), ns, sem(c, Task::Rep(e, mi, ma, k + 1, n1, p1))); } _ => {} }
//+TERM             lemma_next(c, Task::Rep(*$1.expression, $1.min.0 as nat, maxof($1.max), 0, $0.pos.n as int, pev($0)), Task::Rep(e, mi, ma, k, n, p));
        } _ => {} }
    }
