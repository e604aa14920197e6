//@ include flatten.vx
//@ spec
/// markers balanced and properly nested: reading s with the open rules st, gives the rules left open
pub open spec fn nest(s: Seq<FNode>, st: Seq<Seq<char>>) -> Option<Seq<Seq<char>>> decreases s.len() {
    if s.len() == 0 { Some(st) } else {
        match s[0] {
            FNode::Begin(n) => nest(s.skip(1), st.push(n)),
            FNode::End(n) => if st.len() > 0 && st.last() == n { nest(s.skip(1), st.drop_last()) } else { None },
            _ => nest(s.skip(1), st),
        }
    }
}
pub proof fn lemma_nest(n: GNode, rest: Seq<FNode>, st: Seq<Seq<char>>)
    ensures nest(gf(n) + rest, st) == nest(rest, st), //#C16
    decreases n, 0int,
{
    match n {
        GNode::Val(v) => { assert((gf(n) + rest).skip(1) =~= rest); }
        GNode::EOF => { assert(gf(n) + rest =~= rest); }
        GNode::Rule(nm, ch) => {
            let t = gf(n) + rest;
            let e = seq![FNode::End(nm)] + rest;
            assert(t.skip(1) =~= gfs(ch) + e);
            lemma_nests(ch, e, st.push(nm));
            assert(e.skip(1) =~= rest);
            assert(st.push(nm).drop_last() =~= st);
        }
    }
}
pub proof fn lemma_nests(v: Seq<GNode>, rest: Seq<FNode>, st: Seq<Seq<char>>)
    ensures nest(gfs(v) + rest, st) == nest(rest, st),
    decreases v, 1int,
{
    if v.len() == 0 { assert(gfs(v) + rest =~= rest); } else {
        assert(decreases_to!(v => v[v.len() - 1]));
        assert(gfs(v) + rest =~= gfs(v.drop_last()) + (gf(v.last()) + rest));
        lemma_nests(v.drop_last(), gf(v.last()) + rest, st);
        lemma_nest(v.last(), rest, st);
    }
}
pub proof fn lemma_balanced(n: GNode) ensures nest(gf(n), Seq::empty()) == Some(Seq::<Seq<char>>::empty()), //#C16
{ lemma_nest(n, Seq::empty(), Seq::empty()); assert(gf(n) + Seq::<FNode>::empty() =~= gf(n)); }

pub proof fn lemma_gfs_front(v: Seq<GNode>)
    requires v.len() > 0,
    ensures gfs(v) == gf(v[0]) + gfs(v.skip(1)), nos_eof(v) ==> no_eof(v[0]) && nos_eof(v.skip(1)),
    decreases v.len(),
{
    let d = v.drop_last();
    if d.len() == 0 {
        assert(d =~= Seq::<GNode>::empty()); assert(v.skip(1) =~= Seq::<GNode>::empty());
        assert(gfs(d) == Seq::<FNode>::empty()); assert(gfs(v.skip(1)) == Seq::<FNode>::empty());
        assert(v.last() == v[0]); assert(gfs(v) == gfs(d) + gf(v.last()));
        assert(gfs(v) =~= gf(v[0])); assert(gf(v[0]) + gfs(v.skip(1)) =~= gf(v[0]));
    }
    else {
        lemma_gfs_front(d);
        assert(v.skip(1).drop_last() =~= d.skip(1));
        assert(gfs(v) =~= gf(v[0]) + gfs(v.skip(1)));
    }
}
pub open spec fn stop(x: Seq<FNode>) -> bool { x.len() == 0 || x[0] is End }
/// two different sequences of trees without EOF never flatten to the same list
pub proof fn lemma_inj_seq(u: Seq<GNode>, v: Seq<GNode>, x: Seq<FNode>, y: Seq<FNode>)
    requires nos_eof(u), nos_eof(v), stop(x), stop(y), gfs(u) + x == gfs(v) + y,
    ensures u == v, x == y,
    decreases (gfs(u) + x).len(), u.len() + v.len(),
{
    hide(gf); hide(gfs); hide(no_eof); hide(nos_eof);
    let t = gfs(u) + x;
    lemma_gfs_none(u); lemma_gfs_none(v);
    if u.len() == 0 && v.len() == 0 {
        assert(u =~= v); assert(gfs(u) + x =~= x); assert(gfs(v) + y =~= y);
    } else if u.len() == 0 {
        lemma_gfs_front(v); lemma_first(v[0]); assert(t =~= x); assert(t[0] == gf(v[0])[0]);
    } else if v.len() == 0 {
        lemma_gfs_front(u); lemma_first(u[0]); assert(gfs(v) + y =~= y); assert(t[0] == gf(u[0])[0]);
    } else {
        lemma_gfs_front(u); lemma_gfs_front(v); lemma_first(u[0]); lemma_first(v[0]);
        assert(t[0] == gf(u[0])[0]); assert(t[0] == gf(v[0])[0]);
        let (u1, v1) = (u.skip(1), v.skip(1));
        match (u[0], v[0]) {
            (GNode::Val(a), GNode::Val(b)) => {
                assert(t.skip(1) =~= gfs(u1) + x); assert(t.skip(1) =~= gfs(v1) + y);
                lemma_inj_seq(u1, v1, x, y);
            }
            (GNode::Rule(a, c), GNode::Rule(b, d)) => {
                let xx = seq![FNode::End(a)] + (gfs(u1) + x);
                let yy = seq![FNode::End(b)] + (gfs(v1) + y);
                assert(t =~= seq![FNode::Begin(a)] + (gfs(c) + xx)); assert(t =~= seq![FNode::Begin(b)] + (gfs(d) + yy));
                assert(t.skip(1) =~= gfs(c) + xx); assert(t.skip(1) =~= gfs(d) + yy);
                lemma_inj_seq(c, d, xx, yy);
                assert(xx[0] == yy[0]); assert(a == b);
                assert(xx.skip(1) =~= gfs(u1) + x); assert(yy.skip(1) =~= gfs(v1) + y);
                lemma_inj_seq(u1, v1, x, y);
            }
            _ => {}
        }
        assert(u[0] == v[0]);
        assert(u =~= seq![u[0]] + u1); assert(v =~= seq![v[0]] + v1);
    }
}
pub proof fn lemma_gfs_none(v: Seq<GNode>) ensures v.len() == 0 ==> gfs(v) == Seq::<FNode>::empty() {}
pub proof fn lemma_first(n: GNode)
    requires no_eof(n),
    ensures gf(n).len() > 0, match n { 
            GNode::Val(v) => gf(n) == seq![FNode::Val(v)],
            GNode::Rule(nm, ch) => gf(n) == seq![FNode::Begin(nm)] + gfs(ch) + seq![FNode::End(nm)] && gf(n)[0] == FNode::Begin(nm) && nos_eof(ch),
            _ => false },
{}
pub proof fn lemma_injective(a: GNode, b: GNode)
    requires no_eof(a), no_eof(b), gf(a) == gf(b),
    ensures a == b, //#C16
{
    let (u, v) = (seq![a], seq![b]);
    assert(u.drop_last() =~= Seq::<GNode>::empty()); assert(v.drop_last() =~= Seq::<GNode>::empty());
    let e = Seq::<FNode>::empty();
    assert(gfs(u.drop_last()) =~= e);
    assert(gfs(u) =~= gf(a)); assert(gfs(v) =~= gf(b)); assert(gfs(u) + e =~= gf(a)); assert(gfs(v) + e =~= gf(b));
    assert(u.last() == a && v.last() == b); assert(nos_eof(u.drop_last()) && nos_eof(v.drop_last())); assert(nos_eof(u) && nos_eof(v));
    lemma_inj_seq(u, v, e, e);
    assert(u[0] == v[0]);
}

