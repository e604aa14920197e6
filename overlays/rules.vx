//@ fn parser_expression_SetOfRules::add C18
//@ contract
    ensures hm(vx_r.0) == hm($0.0).insert($1@, $2),

//@ spec
/// union_prefer_right as the statement has it
pub proof fn lemma_union<V>(a: Map<Seq<char>, V>, b: Map<Seq<char>, V>, n: Seq<char>)
    ensures ({ let u = a.union_prefer_right(b);
        &&& u.dom().contains(n) <==> a.dom().contains(n) || b.dom().contains(n) //#C18
        &&& b.dom().contains(n) ==> u[n] == b[n]
        &&& !b.dom().contains(n) && a.dom().contains(n) ==> u[n] == a[n] }),
{}

//@ fn parser_expression_SetOfRules::merge C18
//@ contract
    ensures hm(vx_r.0) == hm($1.0).union_prefer_right(hm($0.0)),
