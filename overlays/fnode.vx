//@ include gnode.vx
//@ spec
pub enum FNode { Val(Seq<char>), Begin(Seq<char>), End(Seq<char>), EOF }
pub open spec fn f1(n: ast_flat_Node) -> FNode {
    match n {
        ast_flat_Node::Val(s) => FNode::Val(s@),
        ast_flat_Node::BeginRule(s) => FNode::Begin(s@),
        ast_flat_Node::EndRule(s) => FNode::End(s@),
        ast_flat_Node::EOF => FNode::EOF,
    }
}
pub open spec fn fs(v: Seq<ast_flat_Node>) -> Seq<FNode> { v.map_values(|n: ast_flat_Node| f1(n)) }
pub proof fn lemma_fs(a: Seq<ast_flat_Node>)
    ensures forall|x: ast_flat_Node| fs(#[trigger] a.push(x)) == fs(a).push(f1(x)), fs(a).len() == a.len(), a.len() == 0 ==> fs(a) == Seq::<FNode>::empty(),
{
    assert forall|x: ast_flat_Node| fs(#[trigger] a.push(x)) == fs(a).push(f1(x)) by { assert(fs(a.push(x)) =~= fs(a).push(f1(x))); }
    if a.len() == 0 { assert(fs(a) =~= Seq::<FNode>::empty()); }
}
/// C16: the traversal
pub open spec fn gf(n: GNode) -> Seq<FNode> decreases n {
    match n {
        GNode::Val(v) => seq![FNode::Val(v)],
        GNode::Rule(nm, ch) => seq![FNode::Begin(nm)] + gfs(ch) + seq![FNode::End(nm)],
        GNode::EOF => Seq::empty(),
    }
}
pub open spec fn gfs(v: Seq<GNode>) -> Seq<FNode> decreases v {
    if v.len() == 0 { Seq::empty() } else { gfs(v.drop_last()) + gf(v.last()) }
}
pub open spec fn no_eof(n: GNode) -> bool decreases n {
    match n { GNode::Val(_) => true, GNode::EOF => false, GNode::Rule(_, ch) => nos_eof(ch) }
}
pub open spec fn nos_eof(v: Seq<GNode>) -> bool decreases v {
    v.len() == 0 || nos_eof(v.drop_last()) && no_eof(v.last())
}
