//@ include gnode.vx

//@ spec
pub open spec fn names(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
pub open spec fn g_named(n: GNode, s: Seq<char>) -> bool { match n { GNode::Rule(nm, _) => nm == s, _ => false } }
pub open spec fn g_listed(n: GNode, names: Seq<Seq<char>>) -> bool { match n { GNode::Rule(nm, _) => names.contains(nm), _ => false } }
pub proof fn lemma_listed(n: GNode, names: Seq<Seq<char>>)
    ensures g_listed(n, names) <==> exists|i: int| 0 <= i < names.len() && g_named(n, #[trigger] names[i]),
{
    match n { GNode::Rule(nm, _) => {
        if names.contains(nm) { let i = choose|i: int| 0 <= i < names.len() && names[i] == nm; assert(g_named(n, names[i])); }
    } _ => {} }
}
/// C13
pub open spec fn g_prune(n: GNode, names: Seq<Seq<char>>) -> GNode decreases n {
    match n { GNode::Rule(nm, ch) => GNode::Rule(nm, gs_prune(ch, names)), x => x }
}
pub open spec fn gs_prune(v: Seq<GNode>, names: Seq<Seq<char>>) -> Seq<GNode> decreases v {
    if v.len() == 0 { Seq::empty() } else {
        let h = gs_prune(v.drop_last(), names);
        if g_listed(v.last(), names) { h } else { h.push(g_prune(v.last(), names)) }
    }
}
/// C14
pub open spec fn g_pass(n: GNode, names: Seq<Seq<char>>) -> GNode decreases n {
    match n { GNode::Rule(nm, ch) => GNode::Rule(nm, gs_pass(ch, names)), x => x }
}
pub open spec fn gs_pass(v: Seq<GNode>, names: Seq<Seq<char>>) -> Seq<GNode> decreases v {
    if v.len() == 0 { Seq::empty() } else {
        let h = gs_pass(v.drop_last(), names);
        match v.last() {
            GNode::Rule(nm, ch) => if names.contains(nm) { h.push(GNode::Rule(nm, gs_pass(ch, names))) } else { h + gs_pass(ch, names) },
            x => h.push(x),
        }
    }
}
/// C15
pub open spec fn g_compact(n: GNode) -> GNode decreases n {
    match n { GNode::Rule(nm, ch) => GNode::Rule(nm, gs_compact(ch)), x => x }
}
pub open spec fn join1(h: Seq<GNode>, n: GNode) -> Seq<GNode> {
    if n is Val && h.len() > 0 && h.last() is Val { h.drop_last().push(GNode::Val(h.last()->Val_0 + n->Val_0)) } else { h.push(n) }
}
pub open spec fn gs_compact(v: Seq<GNode>) -> Seq<GNode> decreases v {
    if v.len() == 0 { Seq::empty() } else { join1(gs_compact(v.drop_last()), g_compact(v.last())) }
}

// ---- what the definition of compacting implies (C15)
pub open spec fn g_text(n: GNode) -> Seq<char> decreases n {
    match n { GNode::Val(v) => v, GNode::Rule(_, ch) => gs_text(ch), GNode::EOF => Seq::empty() }
}
pub open spec fn gs_text(v: Seq<GNode>) -> Seq<char> decreases v {
    if v.len() == 0 { Seq::empty() } else { gs_text(v.drop_last()) + g_text(v.last()) }
}
pub open spec fn no_adj(v: Seq<GNode>) -> bool { forall|i: int| 0 <= i && i + 1 < v.len() ==> !((#[trigger] v[i]) is Val && v[i + 1] is Val) }
/// the nodes that are not values
pub open spec fn non_vals(v: Seq<GNode>) -> Seq<GNode> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else if v.last() is Val { non_vals(v.drop_last()) } else { non_vals(v.drop_last()).push(v.last()) }
}
pub proof fn lemma_compact_text(n: GNode)
    ensures g_text(g_compact(n)) == g_text(n), //#C15
    decreases n,
{ match n { GNode::Rule(_, ch) => { lemma_compacts_text(ch); } _ => {} } }
pub proof fn lemma_join_text(h: Seq<GNode>, n: GNode)
    ensures gs_text(join1(h, n)) == gs_text(h) + g_text(n),
{
    let r = join1(h, n);
    if n is Val && h.len() > 0 && h.last() is Val {
        assert(r.drop_last() =~= h.drop_last());
        assert(gs_text(h) == gs_text(h.drop_last()) + g_text(h.last())); assert(r.last() == GNode::Val(g_text(h.last()) + g_text(n)));
        assert(gs_text(r) == gs_text(r.drop_last()) + g_text(r.last()));
        assert(gs_text(h.drop_last()) + (g_text(h.last()) + g_text(n)) =~= gs_text(h.drop_last()) + g_text(h.last()) + g_text(n));
    } else { assert(r.drop_last() =~= h); }
}
pub proof fn lemma_join_adj(h: Seq<GNode>, n: GNode)
    requires no_adj(h),
    ensures no_adj(join1(h, n)),
{
    let r = join1(h, n);
    assert forall|i: int| 0 <= i && i + 1 < r.len() implies !((#[trigger] r[i]) is Val && r[i + 1] is Val) by { if i + 1 < h.len() { assert(!(h[i] is Val && h[i + 1] is Val)); } }
}
pub proof fn lemma_compacts_text(v: Seq<GNode>)
    ensures gs_text(gs_compact(v)) == gs_text(v), no_adj(gs_compact(v)), //#C15
    decreases v,
{
    if v.len() > 0 {
        assert(decreases_to!(v => v[v.len() - 1]));
        lemma_compacts_text(v.drop_last());
        lemma_compact_text(v.last());
        lemma_join_text(gs_compact(v.drop_last()), g_compact(v.last()));
        lemma_join_adj(gs_compact(v.drop_last()), g_compact(v.last()));
    }
}
pub proof fn lemma_compact_nonvals(v: Seq<GNode>)
    ensures non_vals(gs_compact(v)) == non_vals(v).map_values(|n: GNode| g_compact(n)), //#C15
    decreases v.len(),
{
    let f = |n: GNode| g_compact(n);
    if v.len() > 0 {
        let h = gs_compact(v.drop_last());
        lemma_compact_nonvals(v.drop_last());
        let r = gs_compact(v);
        let n = g_compact(v.last());
        if n is Val && h.len() > 0 && h.last() is Val { assert(r.drop_last() =~= h.drop_last()); assert(non_vals(r) == non_vals(h)); }
        else { assert(r.drop_last() =~= h); }
        assert(non_vals(v.drop_last()).push(v.last()).map_values(f) =~= non_vals(v.drop_last()).map_values(f).push(f(v.last())));
    } else { assert(non_vals(v).map_values(f) =~= Seq::empty()); }
}

//@ fn ast_Node::prune C13
//@ contract
    ensures g1(vx_r) == g_prune(g1(*$0), names($1@)),
    decreases $0,
//@ loop 0 iter
    invariant
        vx_i0 <= vx_v0@.len(),
        $0 matches ast_Node::Rule((_, vx_ch)) && vx_v0@.len() == vx_ch@.len()
            && (forall|vx_j: int| 0 <= vx_j < vx_ch@.len() ==> *(#[trigger] vx_v0@[vx_j]) == vx_ch@[vx_j])
            && gs(vx_acc0@) == gs_prune(gs(vx_ch@).take(vx_i0 as int), names($1@)),
    decreases vx_v0@.len() - vx_i0,
//@ loop-body 0
    proof {
        match $0 { ast_Node::Rule((_, vx_ch)) => {
            lemma_gs_take(vx_ch@, vx_i0 as int);
            assert(decreases_to!($0 => vx_ch@[vx_i0 - 1]));
            assert(*vx_v0@[vx_i0 - 1] == vx_ch@[vx_i0 - 1]);
        } _ => {} }
        lemma_listed(g1(*vx_v0@[vx_i0 - 1]), names($1@));
    }
    proof { lemma_gs_grow(vx_acc0@); if vx_acc0@.len() > 0 { lemma_gs_grow(vx_acc0@.drop_last()); assert(vx_acc0@.drop_last().push(vx_acc0@.last()) =~= vx_acc0@); } }
//@ loop-after 0
    proof { match $0 { ast_Node::Rule((_, vx_ch)) => { lemma_gs(vx_ch@); assert(gs(vx_ch@).take(vx_ch@.len() as int) =~= gs(vx_ch@)); } _ => {} } }
//@ loop 1 iter
    invariant
        vx_i1 <= vx_v1@.len(), vx_v1@.len() == $1@.len(), 0 < vx_i0 <= vx_v0@.len(),
        forall|vx_j: int| 0 <= vx_j < vx_v1@.len() ==> *(#[trigger] vx_v1@[vx_j]) == $1@[vx_j],
        vx_acc1.is_some() ==> vx_i1 > 0 && g_named(g1(*vx_v0@[vx_i0 - 1]), names($1@)[vx_i1 - 1]),
        vx_acc1.is_none() ==> forall|vx_j: int| 0 <= vx_j < vx_i1 ==> !g_named(g1(*vx_v0@[vx_i0 - 1]), #[trigger] names($1@)[vx_j]),
    decreases vx_v1@.len() - vx_i1,
//@ loop-body 1
    proof { assert(names($1@)[vx_i1 - 1] == (*vx_v1@[vx_i1 - 1])@); }

//@ fn ast_Node::pass_through_except C14
//@ contract
    ensures g1(vx_r) == g_pass(g1(*$0), names($1@)),
    decreases $0, 0int,

//@ fn ast_Node__pass_through_except__pthr_vn C14
//@ contract
    ensures gs(vx_r@) == gs_pass(gs($0@), names($1@)),
    decreases $0@, 1int,
//@ loop 0 iter
    invariant
        vx_i0 <= vx_v0@.len(),
        vx_v0@.len() == $0@.len(),
        forall|vx_j: int| 0 <= vx_j < $0@.len() ==> *(#[trigger] vx_v0@[vx_j]) == $0@[vx_j],
        gs(vx_acc0@) == gs_pass(gs($0@).take(vx_i0 as int), names($1@)),
    decreases vx_v0@.len() - vx_i0,
//@ loop-body 0
    proof {
        lemma_gs_take($0@, vx_i0 as int);
        assert(decreases_to!($0@ => $0@[vx_i0 - 1]));
        assert(*vx_v0@[vx_i0 - 1] == $0@[vx_i0 - 1]);
        lemma_listed(g1(*vx_v0@[vx_i0 - 1]), names($1@));
    }
    proof { lemma_gs_grow(vx_acc0@); if vx_acc0@.len() > 0 { lemma_gs_grow(vx_acc0@.drop_last()); assert(vx_acc0@.drop_last().push(vx_acc0@.last()) =~= vx_acc0@); } }
//@ loop-after 0
    proof { lemma_gs($0@); assert(gs($0@).take($0@.len() as int) =~= gs($0@)); }
//@ loop 1 iter
    invariant
        vx_i1 <= vx_v1@.len(), vx_v1@.len() == $1@.len(), 0 < vx_i0 <= vx_v0@.len(),
        forall|vx_j: int| 0 <= vx_j < vx_v1@.len() ==> *(#[trigger] vx_v1@[vx_j]) == $1@[vx_j],
        vx_acc1.is_some() ==> vx_i1 > 0 && g_named(g1(*vx_v0@[vx_i0 - 1]), names($1@)[vx_i1 - 1]),
        vx_acc1.is_none() ==> forall|vx_j: int| 0 <= vx_j < vx_i1 ==> !g_named(g1(*vx_v0@[vx_i0 - 1]), #[trigger] names($1@)[vx_j]),
    decreases vx_v1@.len() - vx_i1,
//@ loop-body 1
    proof { assert(names($1@)[vx_i1 - 1] == (*vx_v1@[vx_i1 - 1])@); }

//@ fn ast_Node::compact C15
//@ contract
    ensures g1(vx_r) == g_compact(g1(*$0)),
    decreases $0, 0int,

//@ fn ast_Node__compact__compact_nodes C15
//@ contract
    ensures gs(vx_r@) == gs_compact(gs($0@)),
    decreases $0@, 1int,
//@ loop 0 iter
    invariant
        vx_i0 <= vx_v0@.len(),
        vx_v0@.len() == $0@.len(),
        forall|vx_j: int| 0 <= vx_j < $0@.len() ==> *(#[trigger] vx_v0@[vx_j]) == $0@[vx_j],
        gs(vx_acc0@) == gs_compact(gs($0@).take(vx_i0 as int)),
    decreases vx_v0@.len() - vx_i0,
//@ loop-body 0
    proof {
        lemma_gs_take($0@, vx_i0 as int);
        assert(decreases_to!($0@ => $0@[vx_i0 - 1]));
        assert(*vx_v0@[vx_i0 - 1] == $0@[vx_i0 - 1]);
        lemma_gs(vx_acc0@);
    }
    let ghost vx_old = vx_acc0@;
    proof { lemma_gs_grow(vx_acc0@); if vx_acc0@.len() > 0 { lemma_gs_grow(vx_acc0@.drop_last()); assert(vx_acc0@.drop_last().push(vx_acc0@.last()) =~= vx_acc0@); } }
//@ loop-end 0
    proof {
        let vx_n = g1(*vx_v0@[vx_i0 - 1]);
        if vx_n is Val && vx_old.len() > 0 && gs(vx_old).last() is Val {
            assert(gs(vx_acc0@) == gs(vx_old).drop_last().push(GNode::Val(gs(vx_old).last()->Val_0 + vx_n->Val_0)));
        } else {
            assert(gs(vx_acc0@) == gs(vx_old).push(g_compact(vx_n)));
        }
    }
//@ loop-after 0
    proof { lemma_gs($0@); assert(gs($0@).take($0@.len() as int) =~= gs($0@)); }
