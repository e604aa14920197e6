//@ include fnode.vx
//@ fn ast_Node::flatten C16
//@ contract
    ensures fs(vx_r@) == gf(g1(*$0)),
//@ entry
    proof { lemma_fs(Seq::<ast_flat_Node>::empty()); assert(Seq::<FNode>::empty() + gf(g1(*$0)) =~= gf(g1(*$0))); }

//@ fn ast_Node__flatten__flatten_acc C16
//@ contract
    ensures fs(vx_r@) == fs($0@) + gf(g1(*$1)),
    decreases $1,
//@ entry
    let ghost vx_a0 = $0@;
    proof {
        lemma_fs($0@);
        match $1 {
            ast_Node::EOF => { assert(fs(vx_a0) + gf(g1(*$1)) =~= fs(vx_a0)); }
            ast_Node::Val(v) => { assert(fs(vx_a0) + gf(g1(*$1)) =~= fs(vx_a0).push(FNode::Val(v@))); }
            ast_Node::Rule((n, ch)) => {
                lemma_gs(ch@);
                assert(gs(ch@).take(ch@.len() as int) =~= gs(ch@));
                assert(fs(vx_a0) + gf(g1(*$1)) =~= (fs(vx_a0).push(FNode::Begin(n@)) + gfs(gs(ch@))).push(FNode::End(n@)));
                assert(fs(vx_a0).push(FNode::Begin(n@)) + gfs(gs(ch@).take(0)) =~= fs(vx_a0).push(FNode::Begin(n@)));
            }
        }
    }
//@ loop 0 iter
    invariant
        vx_i0 <= vx_v0@.len(),
        $1 matches ast_Node::Rule((vx_n, vx_ch)) && vx_v0@.len() == vx_ch@.len()
            && (forall|vx_j: int| 0 <= vx_j < vx_ch@.len() ==> *(#[trigger] vx_v0@[vx_j]) == vx_ch@[vx_j])
            && fs(vx_acc0@) == fs(vx_a0).push(FNode::Begin(vx_n@)) + gfs(gs(vx_ch@).take(vx_i0 as int)),
    decreases vx_v0@.len() - vx_i0,
//@ loop-body 0
    proof {
        match $1 { ast_Node::Rule((vx_n, vx_ch)) => {
            lemma_gs_take(vx_ch@, vx_i0 as int);
            assert(decreases_to!($1 => vx_ch@[vx_i0 - 1]));
            assert(*vx_v0@[vx_i0 - 1] == vx_ch@[vx_i0 - 1]);
            let vx_b = fs(vx_a0).push(FNode::Begin(vx_n@));
            assert(vx_b + gfs(gs(vx_ch@).take(vx_i0 as int)) =~= (vx_b + gfs(gs(vx_ch@).take(vx_i0 - 1))) + gf(g1(vx_ch@[vx_i0 - 1])));
        } _ => {} }
    }
//@ loop-after 0
    proof { lemma_fs(vx_acc0@); }
