//@ spec
/// matching a text by the published grammar ends, for every text
pub proof fn lemma_peg_ends(s: Seq<char>, r: Map<Seq<char>, Ex>)
    requires published(r),
    ensures nolr(Ctx { text: s, rules: r }, Task::Rule("main"@, 0, None)), //#C11,C24
{
    lemma_g_nolr(r);
    lemma_no_left_recursion(Ctx { text: s, rules: r }, g_nnf(), g_rankf(), Task::Rule("main"@, 0, None));
}
