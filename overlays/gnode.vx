//@ spec
/// a tree as a mathematical value
pub enum GNode { Val(Seq<char>), Rule(Seq<char>, Seq<GNode>), EOF }
pub open spec fn g1(n: ast_Node) -> GNode decreases n {
    match n {
        ast_Node::Val(s) => GNode::Val(s@),
        ast_Node::Rule((nm, ch)) => GNode::Rule(nm@, gs(ch@)),
        ast_Node::EOF => GNode::EOF,
    }
}
pub open spec fn gs(v: Seq<ast_Node>) -> Seq<GNode> decreases v {
    if v.len() == 0 { Seq::empty() } else { gs(v.drop_last()).push(g1(v.last())) }
}
pub proof fn lemma_gs(v: Seq<ast_Node>)
    ensures gs(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> gs(v)[i] == g1(#[trigger] v[i]),
    decreases v.len(),
{
    if v.len() > 0 {
        let d = v.drop_last();
        lemma_gs(d);
        assert forall|i: int| 0 <= i < v.len() implies gs(v)[i] == g1(#[trigger] v[i]) by {
            if i < d.len() { assert(d[i] == v[i]); assert(gs(d)[i] == g1(d[i])); }
        }
    }
}
pub proof fn lemma_gs_ext(v: Seq<ast_Node>, g: Seq<GNode>)
    requires v.len() == g.len(), forall|i: int| 0 <= i < v.len() ==> g1(#[trigger] v[i]) == g[i],
    ensures gs(v) == g,
{
    lemma_gs(v);
    assert forall|i: int| 0 <= i < v.len() implies gs(v)[i] == g[i] by { assert(g1(v[i]) == g[i]); }
    assert(gs(v) =~= g);
}
pub proof fn lemma_gs_add(a: Seq<ast_Node>, b: Seq<ast_Node>)
    ensures gs(a + b) == gs(a) + gs(b),
{
    lemma_gs(a); lemma_gs(b); lemma_gs(a + b);
    assert forall|i: int| 0 <= i < (a + b).len() implies gs(a + b)[i] == (gs(a) + gs(b))[i] by {
        assert(gs(a + b)[i] == g1((a + b)[i]));
        if i < a.len() { assert(gs(a)[i] == g1(a[i])); } else { assert(gs(b)[i - a.len()] == g1(b[i - a.len()])); }
    }
    assert(gs(a + b) =~= gs(a) + gs(b));
}
pub proof fn lemma_gs_push(a: Seq<ast_Node>, b: ast_Node)
    ensures gs(a.push(b)) == gs(a).push(g1(b)),
{ assert(a.push(b).drop_last() =~= a); }
pub proof fn lemma_gs_take(a: Seq<ast_Node>, i: int)
    requires 0 < i <= a.len(),
    ensures
        gs(a).take(i).len() == i,
        gs(a).take(i).drop_last() == gs(a).take(i - 1), gs(a).take(i).last() == g1(a[i - 1]),
        gs(a).len() == a.len(),
{
    lemma_gs(a);
    assert(gs(a).take(i).drop_last() =~= gs(a).take(i - 1));
    assert(gs(a)[i - 1] == g1(a[i - 1]));
}
/// what appending to a list of nodes does to its view
pub proof fn lemma_gs_grow(a: Seq<ast_Node>)
    ensures
        forall|b: Seq<ast_Node>| gs(#[trigger] (a + b)) == gs(a) + gs(b),
        forall|x: ast_Node| gs(#[trigger] a.push(x)) == gs(a).push(g1(x)),
        gs(a).len() == a.len(),
        a.len() > 0 ==> gs(a.drop_last()) == gs(a).drop_last() && g1(a.last()) == gs(a).last(),
{
    assert forall|b: Seq<ast_Node>| gs(#[trigger] (a + b)) == gs(a) + gs(b) by { lemma_gs_add(a, b); }
    assert forall|x: ast_Node| gs(#[trigger] a.push(x)) == gs(a).push(g1(x)) by { lemma_gs_push(a, x); }
    lemma_gs(a);
    if a.len() > 0 { assert(gs(a).drop_last() =~= gs(a.drop_last())); }
}
