//@ include gexpr.vx
//@ spec
pub type Ent = (Seq<char>, GE);
/// the rules that rules!(...) makes: later entries replace earlier ones of the same name
pub open spec fn built(l: Seq<Ent>) -> Map<Seq<char>, GE> decreases l.len() { if l.len() == 0 { Map::empty() } else { built(l.drop_last()).insert(l.last().0, l.last().1) } }
pub proof fn lemma_built(l: Seq<Ent>, x: Ent) ensures built(l.push(x)) == built(l).insert(x.0, x.1) { assert(l.push(x).drop_last() =~= l); }
pub proof fn lemma_built_get(l: Seq<Ent>)
    requires forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0,
    ensures
        forall|i: int| 0 <= i < l.len() ==> built(l).dom().contains((#[trigger] l[i]).0) && built(l)[l[i].0] == l[i].1,
        forall|k: Seq<char>| #[trigger] built(l).dom().contains(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k,
    decreases l.len(),
{
    if l.len() > 0 {
        let p = l.drop_last(); let n = l.len() - 1;
        lemma_built_get(p);
        assert forall|i: int| 0 <= i < l.len() implies built(l).dom().contains((#[trigger] l[i]).0) && built(l)[l[i].0] == l[i].1 by { if i < n { assert(p[i] == l[i]); assert(l[i].0 != l[n].0); } }
        assert forall|k: Seq<char>| #[trigger] built(l).dom().contains(k) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k by {
            if k == l[n].0 { } else { assert(built(p).dom().contains(k)); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; assert(l[i] == p[i]); assert(l[i].0 == k); }
        }
    }
}
