//@ include rdcode.vx
//@ spec
pub open spec fn gr(m: parser_atom_MatchRules) -> GE { GE::Class(m.0@, m.1@) }
pub open spec fn ents(v: Seq<(&String, &parser_expression_Expression)>) -> Seq<Ent> { v.map_values(|x: (&String, &parser_expression_Expression)| (x.0@, ge(*x.1))) }
pub proof fn lemma_ents(m: Map<Seq<char>, parser_expression_Expression>, v: Seq<(&String, &parser_expression_Expression)>)
    requires map_items(m, v),
    ensures same_rules(ents(v), m), built(ents(v)) == gm(m),
{
    let l = ents(v);
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k; assert(l[i].0 == k); }
    lemma_built_get(l);
    assert(built(l) =~= gm(m));
}
/// joining texts, in whatever order
pub proof fn lemma_cat()
    ensures
        forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) == a + (b + c),
        forall|a: Seq<char>, b: Seq<char>| a.len() == 0 ==> #[trigger] (a + b) == b,
        forall|a: Seq<char>, b: Seq<char>| b.len() == 0 ==> #[trigger] (a + b) == a,
        ""@.len() == 0, ""@ == Seq::<char>::empty(),
{
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) == a + (b + c) by { as2(a, b, c); }
    assert forall|a: Seq<char>, b: Seq<char>| a.len() == 0 implies #[trigger] (a + b) == b by { assert(a + b =~= b); }
    assert forall|a: Seq<char>, b: Seq<char>| b.len() == 0 implies #[trigger] (a + b) == a by { assert(a + b =~= a); }
}
/// the text of the code
pub proof fn lemma_code()
    ensures
        forall|t: Seq<char>, s: Seq<char>| #![trigger "lit!(\""@ + (t + "\")"@), sden(t, s)] sden(t, s) ==> den("lit!(\""@ + (t + "\")"@), GE::Lit(s)),
        forall|t: Seq<char>, s: Seq<char>| #![trigger "error!(\""@ + (t + "\")"@), sden(t, s)] sden(t, s) ==> den("error!(\""@ + (t + "\")"@), GE::Error(s)),
        forall|t: Seq<char>, s: Seq<char>| #![trigger "ref_rule!(\""@ + (t + "\")"@), sden(t, s)] sden(t, s) ==> den("ref_rule!(\""@ + (t + "\")"@), GE::Ref(s)),
        forall|t: Seq<char>, e: GE| #![trigger "not!("@ + (t + ")"@), den(t, e)] den(t, e) ==> den("not!("@ + (t + ")"@), GE::Not(Box::new(e))),
        forall|t: Seq<char>, l: Seq<GE>| #![trigger "and!("@ + (t + ")"@), lden(t, l)] lden(t, l) ==> den("and!("@ + (t + ")"@), GE::And(l)),
        forall|t: Seq<char>, l: Seq<GE>| #![trigger "or!("@ + (t + ")"@), lden(t, l)] lden(t, l) ==> den("or!("@ + (t + ")"@), GE::Or(l)),
        den("dot!()"@, GE::Dot),
        den("eof!()"@, GE::EOF),
{
    lemma_cat();
    assert forall|t: Seq<char>, s: Seq<char>| #![trigger "lit!(\""@ + (t + "\")"@), sden(t, s)] sden(t, s) implies den("lit!(\""@ + (t + "\")"@), GE::Lit(s)) by { lemma_d_lit(t, s); }
    assert forall|t: Seq<char>, s: Seq<char>| #![trigger "error!(\""@ + (t + "\")"@), sden(t, s)] sden(t, s) implies den("error!(\""@ + (t + "\")"@), GE::Error(s)) by { lemma_d_error(t, s); }
    assert forall|t: Seq<char>, s: Seq<char>| #![trigger "ref_rule!(\""@ + (t + "\")"@), sden(t, s)] sden(t, s) implies den("ref_rule!(\""@ + (t + "\")"@), GE::Ref(s)) by { lemma_d_ref(t, s); }
    assert forall|t: Seq<char>, e: GE| #![trigger "not!("@ + (t + ")"@), den(t, e)] den(t, e) implies den("not!("@ + (t + ")"@), GE::Not(Box::new(e))) by { lemma_d_not(t, e); }
    assert forall|t: Seq<char>, l: Seq<GE>| #![trigger "and!("@ + (t + ")"@), lden(t, l)] lden(t, l) implies den("and!("@ + (t + ")"@), GE::And(l)) by { lemma_d_and(t, l); }
    assert forall|t: Seq<char>, l: Seq<GE>| #![trigger "or!("@ + (t + ")"@), lden(t, l)] lden(t, l) implies den("or!("@ + (t + ")"@), GE::Or(l)) by { lemma_d_or(t, l); }
    lemma_d_dot();
    lemma_d_eof();
}
pub proof fn lemma_code_b()
    ensures
        forall|f: Seq<char>, a: char, t: Seq<char>, b: char, z: Seq<char>, l: Seq<(char, char)>| #![trigger ", from '"@ + (f + ("', to '"@ + (t + ("' "@ + z)))), cden(f, a), cden(t, b), bden(z, l)] cden(f, a) && cden(t, b) && bden(z, l) ==> bden(", from '"@ + (f + ("', to '"@ + (t + ("' "@ + z)))), seq![(a, b)] + l),
        forall|t: Seq<char>| t.len() == 0 ==> #[trigger] bden(t, Seq::empty()),
{
    lemma_cat();
    assert forall|f: Seq<char>, a: char, t: Seq<char>, b: char, z: Seq<char>, l: Seq<(char, char)>| #![trigger ", from '"@ + (f + ("', to '"@ + (t + ("' "@ + z)))), cden(f, a), cden(t, b), bden(z, l)] cden(f, a) && cden(t, b) && bden(z, l) implies bden(", from '"@ + (f + ("', to '"@ + (t + ("' "@ + z)))), seq![(a, b)] + l) by { lemma_b1(f, a, t, b, z, l); }
    assert forall|t: Seq<char>| t.len() == 0 implies #[trigger] bden(t, Seq::empty()) by { lemma_b0(t); }
}
pub proof fn lemma_code_c()
    ensures
        forall|t: Seq<char>, s: Seq<char>| #![trigger "ematch!(chlist \""@ + (t + ("\"  "@ + (", from2 vec![]"@ + ")"@))), sden(t, s)] sden(t, s) ==> den("ematch!(chlist \""@ + (t + ("\"  "@ + (", from2 vec![]"@ + ")"@))), GE::Class(s, Seq::empty())),
        forall|t: Seq<char>, s: Seq<char>, b: Seq<char>, l: Seq<(char, char)>| #![trigger "ematch!(chlist \""@ + (t + ("\"  "@ + (b + ")"@))), sden(t, s), bden(b, l)] sden(t, s) && l.len() > 0 && bden(b, l) ==> den("ematch!(chlist \""@ + (t + ("\"  "@ + (b + ")"@))), GE::Class(s, l)),
{
    lemma_cat();
    assert forall|t: Seq<char>, s: Seq<char>| #![trigger "ematch!(chlist \""@ + (t + ("\"  "@ + (", from2 vec![]"@ + ")"@))), sden(t, s)] sden(t, s) implies den("ematch!(chlist \""@ + (t + ("\"  "@ + (", from2 vec![]"@ + ")"@))), GE::Class(s, Seq::empty())) by { lemma_d_class(t, s, ", from2 vec![]"@, Seq::empty()); }
    assert forall|t: Seq<char>, s: Seq<char>, b: Seq<char>, l: Seq<(char, char)>| #![trigger "ematch!(chlist \""@ + (t + ("\"  "@ + (b + ")"@))), sden(t, s), bden(b, l)] sden(t, s) && l.len() > 0 && bden(b, l) implies den("ematch!(chlist \""@ + (t + ("\"  "@ + (b + ")"@))), GE::Class(s, l)) by { lemma_d_class(t, s, b, l); }
}
pub proof fn lemma_code_r()
    ensures
        forall|t: Seq<char>, e: GE, a: usize| #![trigger "rep!("@ + (t + (", "@ + (usize_str(a) + ")"@))), den(t, e)] den(t, e) ==> den("rep!("@ + (t + (", "@ + (usize_str(a) + ")"@))), GE::Rep(Box::new(e), a as nat, None)),
        forall|t: Seq<char>, e: GE, a: usize, b: usize| #![trigger "rep!("@ + (t + (", "@ + (usize_str(a) + (", "@ + (usize_str(b) + ")"@))))), den(t, e)] den(t, e) ==> den("rep!("@ + (t + (", "@ + (usize_str(a) + (", "@ + (usize_str(b) + ")"@))))), GE::Rep(Box::new(e), a as nat, Some(b as nat))),
{
    lemma_cat();
    assert forall|t: Seq<char>, e: GE, a: usize| #![trigger "rep!("@ + (t + (", "@ + (usize_str(a) + ")"@))), den(t, e)] den(t, e) implies den("rep!("@ + (t + (", "@ + (usize_str(a) + ")"@))), GE::Rep(Box::new(e), a as nat, None)) by { lemma_d_rep(t, e, a, ""@, None); }
    assert forall|t: Seq<char>, e: GE, a: usize, b: usize| #![trigger "rep!("@ + (t + (", "@ + (usize_str(a) + (", "@ + (usize_str(b) + ")"@))))), den(t, e)] den(t, e) implies den("rep!("@ + (t + (", "@ + (usize_str(a) + (", "@ + (usize_str(b) + ")"@))))), GE::Rep(Box::new(e), a as nat, Some(b as nat))) by { lemma_d_rep(t, e, a, ", "@ + usize_str(b), Some(b)); }
}
pub proof fn lemma_code_l()
    ensures
        forall|a: Seq<char>, l: Seq<GE>, t: Seq<char>, e: GE| #![trigger a + (", "@ + t), lden(a, l), den(t, e)] lden(a, l) && l.len() > 0 && den(t, e) ==> lden(a + (", "@ + t), l.push(e)),
        forall|t: Seq<char>| t.len() == 0 ==> #[trigger] lden(t, Seq::empty()),
        forall|t: Seq<char>, e: GE| #[trigger] den(t, e) ==> lden(t, Seq::<GE>::empty().push(e)),
        forall|a: Seq<char>, l: Seq<GE>| #[trigger] lden(a, l) ==> (a.len() == 0 <==> l.len() == 0) && (blen(a) == 0 <==> l.len() == 0),
{
    lemma_cat();
    assert forall|a: Seq<char>, l: Seq<GE>, t: Seq<char>, e: GE| #![trigger a + (", "@ + t), lden(a, l), den(t, e)] lden(a, l) && l.len() > 0 && den(t, e) implies lden(a + (", "@ + t), l.push(e)) by { lemma_l2(a, l, t, e); }
    assert forall|t: Seq<char>| t.len() == 0 implies #[trigger] lden(t, Seq::empty()) by { lemma_l0(t, Seq::empty()); }
    assert forall|t: Seq<char>, e: GE| #[trigger] den(t, e) implies lden(t, Seq::<GE>::empty().push(e)) by { lemma_l1(t, e); assert(seq![e] =~= Seq::<GE>::empty().push(e)); }
    assert forall|a: Seq<char>, l: Seq<GE>| #[trigger] lden(a, l) implies (a.len() == 0 <==> l.len() == 0) && (blen(a) == 0 <==> l.len() == 0) by { lemma_len(a, l); lemma_blen0(a); }
}
pub proof fn lemma_code_e()
    ensures
        forall|t: Seq<char>, n: Seq<char>, c: Seq<char>, e: GE| #![trigger "\""@ + (t + ("\" => "@ + c)), sden(t, n), den(c, e)] sden(t, n) && den(c, e) ==> eden("\""@ + (t + ("\" => "@ + c)), (n, e)),
        forall|t: Seq<char>, x: Ent| #![trigger "\n       "@ + ("  "@ + t), eden(t, x)] eden(t, x) ==> esden("\n       "@ + ("  "@ + t), Seq::<Ent>::empty().push(x)),
        forall|a: Seq<char>, l: Seq<Ent>, t: Seq<char>, x: Ent| #![trigger a + ("\n       "@ + (", "@ + t)), esden(a, l), eden(t, x)] esden(a, l) && l.len() > 0 && eden(t, x) ==> esden(a + ("\n       "@ + (", "@ + t)), l.push(x)),
        forall|t: Seq<char>| t.len() == 0 ==> #[trigger] esden(t, Seq::empty()),
        forall|a: Seq<char>, l: Seq<Ent>| #[trigger] esden(a, l) ==> (a.len() == 0 <==> l.len() == 0) && (a.len() == 0 ==> a == ""@),
        forall|v: Seq<(&String, &parser_expression_Expression)>| #[trigger] ents(v.take(0)) == Seq::<Ent>::empty(),
{
    lemma_cat();
    assert forall|t: Seq<char>, n: Seq<char>, c: Seq<char>, e: GE| #![trigger "\""@ + (t + ("\" => "@ + c)), sden(t, n), den(c, e)] sden(t, n) && den(c, e) implies eden("\""@ + (t + ("\" => "@ + c)), (n, e)) by { lemma_e1(t, n, c, e); }
    assert forall|t: Seq<char>, x: Ent| #![trigger "\n       "@ + ("  "@ + t), eden(t, x)] eden(t, x) implies esden("\n       "@ + ("  "@ + t), Seq::<Ent>::empty().push(x)) by { let e = Seq::<char>::empty(); lemma_es1(e, "\n       "@ + "  "@, t, x); assert(seq![x] =~= Seq::<Ent>::empty().push(x)); }
    assert forall|a: Seq<char>, l: Seq<Ent>, t: Seq<char>, x: Ent| #![trigger a + ("\n       "@ + (", "@ + t)), esden(a, l), eden(t, x)] esden(a, l) && l.len() > 0 && eden(t, x) implies esden(a + ("\n       "@ + (", "@ + t)), l.push(x)) by { lemma_es2(a, l, t, x); }
    assert forall|t: Seq<char>| t.len() == 0 implies #[trigger] esden(t, Seq::empty()) by { lemma_es0(t, Seq::empty()); }
    assert forall|a: Seq<char>, l: Seq<Ent>| #[trigger] esden(a, l) implies (a.len() == 0 <==> l.len() == 0) && (a.len() == 0 ==> a == ""@) by { lemma_es_len(a, l); if a.len() == 0 { assert(a =~= ""@); } }
    assert forall|v: Seq<(&String, &parser_expression_Expression)>| #[trigger] ents(v.take(0)) == Seq::<Ent>::empty() by { assert(ents(v.take(0)) =~= Seq::<Ent>::empty()); }
}
pub proof fn lemma_blen0(a: Seq<char>) ensures blen(a) == 0 <==> a.len() == 0 { if a.len() > 0 { reveal_with_fuel(blen, 2); } }
// ------------------------------------------------------------------ replacing single characters, in any order that gives the same
pub open spec fn fm(s: Seq<char>, g: spec_fn(char) -> Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { g(s[0]) + fm(s.skip(1), g) } }
pub open spec fn one() -> spec_fn(char) -> Seq<char> { |c: char| seq![c] }
pub open spec fn rc(g: spec_fn(char) -> Seq<char>, p: Seq<char>, t: Seq<char>) -> spec_fn(char) -> Seq<char> { |c: char| repl(g(c), p, t) }
pub proof fn lemma_fm_one(s: Seq<char>) ensures fm(s, one()) == s decreases s.len() { if s.len() > 0 { lemma_fm_one(s.skip(1)); } assert(fm(s, one()) =~= s); }
pub proof fn lemma_fm_rc(s: Seq<char>, g: spec_fn(char) -> Seq<char>, p: Seq<char>, t: Seq<char>)
    requires p.len() == 1,
    ensures repl(fm(s, g), p, t) == fm(s, rc(g, p, t)),
    decreases s.len(),
{
    if s.len() == 0 { assert(repl(fm(s, g), p, t) =~= Seq::<char>::empty()); }
    else { lemma_fm_rc(s.skip(1), g, p, t); lemma_repl_add(g(s[0]), fm(s.skip(1), g), p, t); }
}
pub proof fn lemma_fm_esc(s: Seq<char>, g: spec_fn(char) -> Seq<char>)
    requires forall|c: char| #[trigger] g(c) == esc_c(c),
    ensures fm(s, g) == escd(s),
    decreases s.len(),
{ if s.len() > 0 { lemma_fm_esc(s.skip(1), g); assert(g(s[0]) == esc_c(s[0])); } }
/// t is s with Rust's escapes
#[verifier::opaque]
pub open spec fn is_esc(t: Seq<char>, s: Seq<char>) -> bool { t == escd(s) }
pub proof fn lemma_is_esc()
    ensures forall|t: Seq<char>, s: Seq<char>| #[trigger] is_esc(t, s) ==> t == escd(s) && sden(t, s),
{
    reveal(is_esc);
    assert forall|t: Seq<char>, s: Seq<char>| #[trigger] is_esc(t, s) implies t == escd(s) && sden(t, s) by { lemma_sden(s); lemma_chain(s); }
}
pub proof fn lemma_replace(s: Seq<char>)
    ensures
        s == fm(s, one()),
        forall|g: spec_fn(char) -> Seq<char>, p: Seq<char>, t: Seq<char>| p.len() == 1 ==> #[trigger] repl(fm(s, g), p, t) == fm(s, rc(g, p, t)),
        forall|g: spec_fn(char) -> Seq<char>| (forall|c: char| #[trigger] g(c) == esc_c(c)) ==> #[trigger] is_esc(fm(s, g), s),
        forall|x: Seq<char>, p: Seq<char>, t: Seq<char>| p.len() == 1 && x.len() == 1 ==> #[trigger] repl(x, p, t) == (if x[0] == p[0] { t } else { x }),
        forall|x: Seq<char>, p: Seq<char>, t: Seq<char>| p.len() == 1 && x.len() == 2 && x[0] != p[0] && x[1] != p[0] ==> #[trigger] repl(x, p, t) == x,
{
    lemma_fm_one(s);
    assert forall|g: spec_fn(char) -> Seq<char>, p: Seq<char>, t: Seq<char>| p.len() == 1 implies #[trigger] repl(fm(s, g), p, t) == fm(s, rc(g, p, t)) by { lemma_fm_rc(s, g, p, t); }
    assert forall|g: spec_fn(char) -> Seq<char>| (forall|c: char| #[trigger] g(c) == esc_c(c)) implies #[trigger] is_esc(fm(s, g), s) by { lemma_fm_esc(s, g); reveal(is_esc); }
    assert forall|x: Seq<char>, p: Seq<char>, t: Seq<char>| p.len() == 1 && x.len() == 1 implies #[trigger] repl(x, p, t) == (if x[0] == p[0] { t } else { x }) by { lemma_repl1(x[0], p[0], t); assert(p =~= seq![p[0]]); assert(x =~= seq![x[0]]); }
    assert forall|x: Seq<char>, p: Seq<char>, t: Seq<char>| p.len() == 1 && x.len() == 2 && x[0] != p[0] && x[1] != p[0] implies #[trigger] repl(x, p, t) == x by { lemma_repl2(x[0], x[1], p[0], t); assert(p =~= seq![p[0]]); assert(x =~= seq![x[0], x[1]]); }
}
//@ fn peg_gcode_replace_esc C22
//@ contract
    ensures is_esc(vx_r@, $0@), //#C22
//@ entry
    hide(repl); hide(fm); hide(escd);
    proof { lemma_replace($0@); lemma_escs(); }
//@ fn peg_gcode_match_rules2code__char_esc C22
//@ contract
    ensures cden(vx_r@, $0), //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cden($0); lemma_chain(seq![$0]); lemma_escs(); }
//@ fn peg_gcode_match_rules2code__bounds2code C22
//@ contract
    ensures $0@.len() == 0 ==> bden(vx_r@, $1@), //#C22
    decreases $1@.len(),
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code_b(); if $1@.len() > 0 { assert(seq![$1@[0]] + $1@.skip(1) == $1@); } else { assert($1@ =~= Seq::empty()); } }
//@ fn peg_gcode_match_rules2code C22
//@ contract
    ensures den(vx_r@, gr(*$0)), //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code_c(); assert($0.1@.len() == 0 ==> $0.1@ =~= Seq::empty()); }
//@ fn peg_gcode_atom2code C22
//@ contract
    ensures den(vx_r@, ge(parser_expression_Expression::Simple(*$0))), //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code(); }
//@ fn peg_gcode_mexpr2code C22
//@ contract
    ensures lden(vx_r@, ges($0.0@)), //#C22
    decreases *$0, //#C22
//@ entry
    proof { assert forall|i: int| 0 <= i < $0.0@.len() implies decreases_to!($0 => #[trigger] $0.0@[i]) by { assert(decreases_to!($0.0 => $0.0@[i])); } }
    proof { lemma_is_esc(); lemma_cat(); lemma_code_l(); assert(ges($0.0@.take(0)) =~= Seq::empty()); assert($0.0@.take($0.0@.len() as int) =~= $0.0@); }
//@ loop 0 iter
    invariant
        vx_v0@.len() == $0.0@.len(), forall|vx_j: int| 0 <= vx_j < vx_v0@.len() ==> *(#[trigger] vx_v0@[vx_j]) == $0.0@[vx_j],
        vx_i0 <= vx_v0@.len(), lden(vx_acc0@, ges($0.0@.take(vx_i0 as int))),
    decreases vx_v0@.len() - vx_i0,
//@ loop-body 0
    proof { lemma_ges_take($0.0@, vx_i0 as int - 1); assert(ges($0.0@.take(vx_i0 as int - 1)).len() == 0 ==> ges($0.0@.take(vx_i0 as int - 1)) =~= Seq::empty()); }
//@ fn peg_gcode_repeat2code C22
//@ contract
    ensures den(vx_r@, ge(parser_expression_Expression::Repeat(*$0))), //#C22
    decreases *$0, //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code_r(); }
//@ fn peg_gcode_expr2code C22
//@ contract
    ensures den(vx_r@, ge(*$0)), //#C22
    decreases *$0, //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code(); }
//@ fn peg_gcode_rule2code C22
//@ contract
    ensures eden(vx_r@, ($0@, ge(*$1))), //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code_e(); }
//@ fn peg_gcode_rust_from_rules C22
//@ contract
    ensures exists|l: Seq<Ent>| #[trigger] same_rules(l, hm($0.0)) && rd_rules(vx_r@) == Some(l) && built(l) == gm(hm($0.0)), //#C22
//@ entry
    proof { lemma_is_esc(); lemma_cat(); lemma_code_e(); }
//@ loop 0 iter
    invariant
        map_items(hm($0.0), vx_v0@),
        vx_i0 <= vx_v0@.len(), esden(vx_acc0@, ents(vx_v0@.take(vx_i0 as int))),
    decreases vx_v0@.len() - vx_i0,
//@ loop-body 0
    proof { let p = ents(vx_v0@.take(vx_i0 as int - 1)); assert(ents(vx_v0@.take(vx_i0 as int)) =~= p.push((vx_v0@[vx_i0 as int - 1].0@, ge(*vx_v0@[vx_i0 as int - 1].1)))); assert(p.len() == 0 ==> p =~= Seq::empty()); }
//@ loop-after 0
    proof { assert(vx_v0@.take(vx_v0@.len() as int) =~= vx_v0@); lemma_ents(hm($0.0), vx_v0@); lemma_es(vx_acc0@, ents(vx_v0@)); }
