//@ spec
// ------------------------------------------------------------------ expressions as mathematical values
pub enum GE { Lit(Seq<char>), Error(Seq<char>), Class(Seq<char>, Seq<(char, char)>), Dot, EOF, And(Seq<GE>), Or(Seq<GE>), Not(Box<GE>), Rep(Box<GE>, nat, Option<nat>), Ref(Seq<char>) }
pub open spec fn ge(e: parser_expression_Expression) -> GE decreases e {
    match e {
        parser_expression_Expression::Simple(a) => match a {
            parser_atom_Atom::Literal(s) => GE::Lit(s@),
            parser_atom_Atom::Error(s) => GE::Error(s@),
            parser_atom_Atom::Match(m) => GE::Class(m.0@, m.1@),
            parser_atom_Atom::Dot => GE::Dot,
            parser_atom_Atom::EOF => GE::EOF,
        },
        parser_expression_Expression::And(m) => GE::And(ges(m.0@)),
        parser_expression_Expression::Or(m) => GE::Or(ges(m.0@)),
        parser_expression_Expression::Not(x) => GE::Not(Box::new(ge(*x))),
        parser_expression_Expression::Repeat(r) => GE::Rep(Box::new(ge(*r.expression)), r.min.0 as nat, match r.max { Some(x) => Some(x.0 as nat), None => None }),
        parser_expression_Expression::RuleName(s) => GE::Ref(s@),
    }
}
pub open spec fn ges(v: Seq<parser_expression_Expression>) -> Seq<GE> decreases v {
    if v.len() == 0 { Seq::empty() } else { ges(v.drop_last()).push(ge(v.last())) }
}
pub open spec fn gm(m: Map<Seq<char>, parser_expression_Expression>) -> Map<Seq<char>, GE> { m.map_values(|e: parser_expression_Expression| ge(e)) }

