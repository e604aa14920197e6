//@ include built.vx
//@ include ctors.vx
//@ harness
use crate::parser::expression::{Expression, SetOfRules};
fn lit(s: &str) -> Expression { lit!(s) }
fn error(s: &str) -> Expression { error!(s) }
fn ref_rule(s: &str) -> Expression { ref_rule!(s) }
fn dot() -> Expression { dot!() }
fn eof() -> Expression { eof!() }
fn not(e: Expression) -> Expression { not!(e) }
fn rep1(e: Expression, a: usize) -> Expression { rep!(e, a) }
fn rep2(e: Expression, a: usize, b: usize) -> Expression { rep!(e, a, b) }
fn and1(e: Expression) -> Expression { and!(e) }
fn and2(e: Expression, f: Expression) -> Expression { and!(e, f) }
fn and3(e: Expression, f: Expression, g: Expression) -> Expression { and!(e, f, g) }
fn or1(e: Expression) -> Expression { or!(e) }
fn or2(e: Expression, f: Expression) -> Expression { or!(e, f) }
fn or3(e: Expression, f: Expression, g: Expression) -> Expression { or!(e, f, g) }
fn class0(s: &str) -> Expression { ematch!(chlist s, from2 vec![]) }
fn class1(s: &str, a: char, b: char) -> Expression { ematch!(chlist s, from a, to b) }
fn class2(s: &str, a: char, b: char, c: char, d: char) -> Expression { ematch!(chlist s, from a, to b, from c, to d) }
fn rules1(n: &str, e: Expression) -> SetOfRules { rules!(n => e) }
fn rules2(n: &str, e: Expression, m: &str, f: Expression) -> SetOfRules { rules!(n => e, m => f) }
fn rules3(n: &str, e: Expression, m: &str, f: Expression, o: &str, g: Expression) -> SetOfRules { rules!(n => e, m => f, o => g) }
//@ spec
pub proof fn lemma_ges_all()
    ensures
        forall|m: parser_expression_MultiExpr| #[trigger] ge(parser_expression_Expression::And(m)) == GE::And(ges(m.0@)),
        forall|m: parser_expression_MultiExpr| #[trigger] ge(parser_expression_Expression::Or(m)) == GE::Or(ges(m.0@)),
        forall|v: Seq<parser_expression_Expression>| v.len() == 0 ==> #[trigger] ges(v) == Seq::<GE>::empty(),
        forall|v: Seq<parser_expression_Expression>| v.len() == 1 ==> #[trigger] ges(v) == seq![ge(v[0])],
        forall|v: Seq<parser_expression_Expression>| v.len() == 2 ==> #[trigger] ges(v) == seq![ge(v[0]), ge(v[1])],
        forall|v: Seq<parser_expression_Expression>| v.len() == 3 ==> #[trigger] ges(v) == seq![ge(v[0]), ge(v[1]), ge(v[2])],
{
    reveal_with_fuel(ges, 4);
    assert forall|v: Seq<parser_expression_Expression>| v.len() == 1 implies #[trigger] ges(v) == seq![ge(v[0])] by { assert(ges(v) =~= seq![ge(v[0])]); }
    assert forall|v: Seq<parser_expression_Expression>| v.len() == 2 implies #[trigger] ges(v) == seq![ge(v[0]), ge(v[1])] by { assert(ges(v) =~= seq![ge(v[0]), ge(v[1])]); }
    assert forall|v: Seq<parser_expression_Expression>| v.len() == 3 implies #[trigger] ges(v) == seq![ge(v[0]), ge(v[1]), ge(v[2])] by { assert(ges(v) =~= seq![ge(v[0]), ge(v[1]), ge(v[2])]); }
}
pub proof fn lemma_gm_add()
    ensures
        gm(Map::empty()) == built(Seq::empty()),
        forall|m: Map<Seq<char>, parser_expression_Expression>, k: Seq<char>, e: parser_expression_Expression| #[trigger] gm(m.insert(k, e)) == gm(m).insert(k, ge(e)),
        forall|l: Seq<Ent>, x: Ent| #[trigger] built(l.push(x)) == built(l).insert(x.0, x.1),
{
    assert(gm(Map::empty()) =~= Map::empty());
    assert forall|m: Map<Seq<char>, parser_expression_Expression>, k: Seq<char>, e: parser_expression_Expression| #[trigger] gm(m.insert(k, e)) == gm(m).insert(k, ge(e)) by { assert(gm(m.insert(k, e)) =~= gm(m).insert(k, ge(e))); }
    assert forall|l: Seq<Ent>, x: Ent| #[trigger] built(l.push(x)) == built(l).insert(x.0, x.1) by { lemma_built(l, x); }
}
//@ fn vx_h_lit C22
//@ contract
    ensures ge(vx_r) == GE::Lit($0@), //#C22
//@ fn vx_h_error C22
//@ contract
    ensures ge(vx_r) == GE::Error($0@), //#C22
//@ fn vx_h_ref_rule C22
//@ contract
    ensures ge(vx_r) == GE::Ref($0@), //#C22
//@ fn vx_h_dot C22
//@ contract
    ensures ge(vx_r) == GE::Dot, //#C22
//@ fn vx_h_eof C22
//@ contract
    ensures ge(vx_r) == GE::EOF, //#C22
//@ fn vx_h_not C22
//@ contract
    ensures ge(vx_r) == GE::Not(Box::new(ge($0))), //#C22
//@ fn vx_h_rep1 C22
//@ contract
    ensures ge(vx_r) == GE::Rep(Box::new(ge($0)), $1 as nat, None), //#C22
//@ fn vx_h_rep2 C22
//@ contract
    ensures ge(vx_r) == GE::Rep(Box::new(ge($0)), $1 as nat, Some($2 as nat)), //#C22
//@ fn vx_h_and1 C22
//@ contract
    ensures ge(vx_r) == GE::And(seq![ge($0)]), //#C22
//@ entry
    proof { lemma_ges_all(); }
//@ fn vx_h_and2 C22
//@ contract
    ensures ge(vx_r) == GE::And(seq![ge($0), ge($1)]), //#C22
//@ entry
    proof { lemma_ges_all(); }
//@ fn vx_h_and3 C22
//@ contract
    ensures ge(vx_r) == GE::And(seq![ge($0), ge($1), ge($2)]), //#C22
//@ entry
    proof { lemma_ges_all(); }
//@ fn vx_h_or1 C22
//@ contract
    ensures ge(vx_r) == GE::Or(seq![ge($0)]), //#C22
//@ entry
    proof { lemma_ges_all(); }
//@ fn vx_h_or2 C22
//@ contract
    ensures ge(vx_r) == GE::Or(seq![ge($0), ge($1)]), //#C22
//@ entry
    proof { lemma_ges_all(); }
//@ fn vx_h_or3 C22
//@ contract
    ensures ge(vx_r) == GE::Or(seq![ge($0), ge($1), ge($2)]), //#C22
//@ entry
    proof { lemma_ges_all(); }
//@ fn vx_h_class0 C22
//@ contract
    ensures ge(vx_r) matches GE::Class(vx_s, vx_l) && vx_s == $0@ && vx_l.len() == 0, //#C22
//@ fn vx_h_class1 C22
//@ contract
    ensures ge(vx_r) matches GE::Class(vx_s, vx_l) && vx_s == $0@ && vx_l =~= seq![($1, $2)], //#C22
//@ fn vx_h_class2 C22
//@ contract
    ensures ge(vx_r) matches GE::Class(vx_s, vx_l) && vx_s == $0@ && vx_l =~= seq![($1, $2), ($3, $4)], //#C22
//@ fn vx_h_rules1 C22
//@ contract
    ensures gm(hm(vx_r.0)) == built(Seq::<Ent>::empty().push(($0@, ge($1)))), //#C22
//@ entry
    proof { lemma_gm_add(); }
//@ fn vx_h_rules2 C22
//@ contract
    ensures gm(hm(vx_r.0)) == built(Seq::<Ent>::empty().push(($0@, ge($1))).push(($2@, ge($3)))), //#C22
//@ entry
    proof { lemma_gm_add(); }
//@ fn vx_h_rules3 C22
//@ contract
    ensures gm(hm(vx_r.0)) == built(Seq::<Ent>::empty().push(($0@, ge($1))).push(($2@, ge($3))).push(($4@, ge($5)))), //#C22
//@ entry
    proof { lemma_gm_add(); }
