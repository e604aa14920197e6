//@ include gnode.vx
//@ include pos.vx
//@ import state.vx
//@ include sem.vx
//@ include pre.vx
//@ include text.vx
//@ fn parser_atom_parse_literal C04
//@ contract
    requires pre($0),
    ensures
        match vx_r { Ok((s, nd)) => lit_out(txt($0), $1@, $0.pos.n as int, pev($0)) == Out::Ok(s.pos.n as int, pev(s), seq![g1(nd)]), Err(e) => true }, //#C04
        match vx_r { Ok((s, nd)) => true, Err(e) => lit_out(txt($0), $1@, $0.pos.n as int, pev($0)) == Out::Err(evw(e)) }, //#C04,C09
        match vx_r { Ok((s, nd)) => post_st($0, s) && s.potential_error == $0.potential_error && s.walking_rules == $0.walking_rules, Err(e) => true }, //#C05,C07,C10
        match vx_r { Ok((s, nd)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, nd)) => true, Err(e) => e.parsing_rules@ == $0.walking_rules@ }, //#C10
//@ entry
    let ghost vx_s = $0;
    proof { lemma_lit(txt($0), $1@, 0, $0.pos.n as int); }
//@ loop 0 iter
    invariant
        pre(vx_s), vx_v0@ == $1@, vx_i0 <= vx_v0.len(),
        lit_at(txt(vx_s), $1@, 0, vx_s.pos.n as int) == lit_at(txt(vx_s), $1@, vx_i0 as int, vx_s.pos.n + vx_i0),
        $0.pos.n == vx_s.pos.n + vx_i0,
        post_st(vx_s, $0), $0.potential_error == vx_s.potential_error, $0.walking_rules == vx_s.walking_rules,
    decreases vx_v0.len() - vx_i0,

//@ fn parser_atom_parse_match C04
//@ contract
    requires pre($0),
    ensures
        match vx_r { Ok((s, nd)) => match_out(txt($0), *$1, $0.pos.n as int, pev($0)) == Out::Ok(s.pos.n as int, pev(s), seq![g1(nd)]), Err(e) => true }, //#C04
        match vx_r { Ok((s, nd)) => true, Err(e) => match_out(txt($0), *$1, $0.pos.n as int, pev($0)) == Out::Err(evw(e)) }, //#C04,C09
        match vx_r { Ok((s, nd)) => post_st($0, s) && s.potential_error == $0.potential_error && s.walking_rules == $0.walking_rules, Err(e) => true }, //#C05,C07,C10
        match vx_r { Ok((s, nd)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, nd)) => true, Err(e) => e.parsing_rules@ == $0.walking_rules@ }, //#C10
//@ loop 0 iter
    invariant
        vx_v0.len() == $1.1.len(), forall|j: int| 0 <= j < vx_v0.len() ==> *(#[trigger] vx_v0@[j]) == $1.1@[j],
        vx_i0 <= vx_v0.len(),
        vx_ret0.is_none() ==> (forall|j: int| 0 <= j < vx_i0 ==> { let r = *(#[trigger] vx_v0@[j]); !(r.0 as int <= txt($0)[$0.pos.n as int] as int && txt($0)[$0.pos.n as int] as int <= r.1 as int) }),
        vx_ret0.is_some() ==> vx_ret0.unwrap() && in_class($1.0@, $1.1@, txt($0)[$0.pos.n as int]),
    decreases vx_v0.len() - vx_i0 + (if vx_ret0.is_none() { 1int } else { 0 }),
//@ loop-body 0
    proof { assert(*vx_v0@[vx_i0 - 1] == $1.1@[vx_i0 - 1]); }
//@ loop-after 0
    proof { if vx_ret0.is_none() { assert forall|j: int| 0 <= j < $1.1.len() implies { let r = #[trigger] $1.1@[j]; !(r.0 as int <= txt($0)[$0.pos.n as int] as int && txt($0)[$0.pos.n as int] as int <= r.1 as int) } by { assert(*vx_v0@[j] == $1.1@[j]); } } }

//@ fn parser_atom_parse C04
//@ contract
    requires pre($0),
    ensures
        match vx_r { Ok((s, nd)) => atom_out(txt($0), *$1, $0.pos.n as int, pev($0)) == Out::Ok(s.pos.n as int, pev(s), seq![g1(nd)]), Err(e) => true }, //#C04
        match vx_r { Ok((s, nd)) => true, Err(e) => atom_out(txt($0), *$1, $0.pos.n as int, pev($0)) == Out::Err(evw(e)) }, //#C04,C08,C09
        match vx_r { Ok((s, nd)) => post_st($0, s) && s.potential_error == $0.potential_error && s.walking_rules == $0.walking_rules, Err(e) => true }, //#C05,C07,C10
        match vx_r { Ok((s, nd)) => true, Err(e) => err_ok(txt($0), e) }, //#C07
        match vx_r { Ok((s, nd)) => true, Err(e) => e.parsing_rules@ == $0.walking_rules@ }, //#C10
